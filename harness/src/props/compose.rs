//! C29: the codecs inside the combinators of bytecodec.
use super::*;
use crate::engine::{random, Cx, Prop, R};
use crate::gen::{self, SpecOpts, WireOpts, MIXED};
use crate::sets::{self, DynEnc, DynSet, Err as CodecError};
use bytecodec::combinator::{Peekable, Slice};
use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U32beDecoder, U8Decoder, U8Encoder};
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Error, ErrorKind, SizedEncode};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "A case is a combinator of bytecodec (or two), one or more messages, and a way to cut the bytes or sizes of output buffers; the composite must give what its documentation says of the messages a decoder of their own gives, or the bytes each message encodes to alone. Non-trivial if a whole message takes part and it is cut at least once, or several take part.",
        assumptions: &["bytecodec behaves as documented; its Collect is given no empty last piece (it forgets an unfinished item then)."],
        parts: vec![random("decoders", 100_000, c29_decode), random("encoders", 80_000, c29_encode)],
    }]
}

fn error(e: CodecError) -> Error {
    Error::from(e.kind)
}

// ---- Decoders

struct D(Box<dyn DynDec>);
impl Decode for D {
    type Item = Outcome;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.decode(buf, eos).map_err(error)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Outcome> {
        Ok(match self.0.finish().map_err(error)? {
            Decoded::Msg(m) => Outcome::Msg(m),
            Decoded::Broken(b) => Outcome::Broken(b),
        })
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
fn dec(set: &dyn DynSet) -> D {
    D(set.decoder())
}

/// The messages in some bytes, each by a new decoder: shapes, where they end, and
/// whether that is all there is.
fn apart(set: &dyn DynSet, b: &[u8]) -> R<(Vec<String>, Vec<usize>, bool)> {
    let (mut shapes, mut ends, mut at) = (vec![], vec![], 0);
    while at < b.len() {
        let (o, n) = feed_once(&mut *set.decoder(), &b[at..])?;
        if !matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) {
            return Ok((shapes, ends, false));
        }
        at += n;
        shapes.push(o.shape());
        ends.push(at);
    }
    Ok((shapes, ends, true))
}

/// Pieces of `n` bytes, none of them empty.
fn cut(s: &mut Src, n: usize) -> Vec<usize> {
    gen::pieces(s, n).into_iter().filter(|k| *k > 0).collect()
}
fn mark(exact: bool, rest: usize) -> Eos {
    match exact {
        true => Eos::with_remaining_bytes(ByteCount::Finite(rest as u64)),
        false => Eos::new(rest == 0),
    }
}

/// Decodes one item. `None` for an error or an item that remains unfinished.
fn drive<T: Decode>(d: &mut T, b: &[u8], sizes: &[usize], exact: bool) -> R<Option<(T::Item, usize)>> {
    let mut at = 0;
    let mut end = 0;
    if d.is_idle() {
        return Ok(d.finish_decoding().ok().map(|i| (i, 0)));
    }
    for k in sizes {
        end += k;
        loop {
            let n = match d.decode(&b[at..end], mark(exact, b.len() - end)) {
                Ok(n) => n,
                Err(_) => return Ok(None),
            };
            ensure!(n <= end - at, "{n} bytes consumed of {}", end - at);
            at += n;
            if d.is_idle() {
                return Ok(d.finish_decoding().ok().map(|i| (i, at)));
            }
            if at == end {
                break;
            }
            ensure!(n > 0, "no progress at byte {at}");
        }
    }
    Ok(None)
}

fn shapes(v: Vec<Outcome>) -> Vec<String> {
    v.iter().map(|o| o.shape()).collect()
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    ensure!(got == want, "{what}: {got:?} instead of {want:?}");
    Ok(())
}

/// What Collect gives for `b`: all the messages, or an error if that is not all there is.
///
/// One deviation is a known finding: if the end of the stream comes within the attributes of
/// the last message, and not more bytes are missing than come with the end, the decoder does
/// not complain, and so Collect forgets that message.
#[allow(clippy::too_many_arguments)]
fn collected(cx: &mut Cx, what: &str, got: Option<(Vec<Outcome>, usize)>, b: &[u8], ends: &[usize], sizes: &[usize], want: Vec<String>, clean: bool) -> R {
    let got = got.map(|(v, n)| (shapes(v), n));
    if let (false, Some((v, n))) = (clean, &got) {
        let start = ends.last().copied().unwrap_or(0);
        let missing = announced(&b[start..]).map_or(0, |n| (start + n).saturating_sub(b.len()));
        let piece = b.len() - sizes.last().copied().unwrap_or(0);
        let here = b.len().saturating_sub(piece.max(start + 20));
        if *v == want && *n == b.len() && missing > 0 && here >= missing {
            cx.label("last message cut short and forgotten (known finding)");
            return cx.finding("end-within-attributes", || {
                "a decoder that is told the end of the stream within the attributes of a message, with at least as many of their bytes as are missing, does not report it, so that Collect drops the message silently".into()
            });
        }
    }
    same(what, got, clean.then_some((want, b.len())))
}

fn message(s: &mut Src, set: &dyn DynSet) -> Vec<u8> {
    let o = WireOpts { big: false, ..MIXED };
    let mut b = gen::wires(s, set.known(), &o).bytes();
    match s.below(40) {
        0 => gen::mutate(s, &mut b),
        1 => b[0] |= 0x40,
        _ => {}
    }
    b
}

fn c29_decode(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let msgs: Vec<Vec<u8>> = (0..s.range(1, 4)).map(|_| message(s, set)).collect();
    let mut b = msgs.concat();
    msgs.iter().for_each(|m| describe_bytes(cx, set, m));
    let exact = s.bool();
    let form = s.below(10);
    cx.key(&[form as u8, exact as u8]);
    if msgs.len() > 1 {
        cx.nontrivial();
    }
    match form {
        0 | 1 => {
            if s.chance(30) && !b.is_empty() {
                b.truncate(b.len() - s.below(b.len()));
            }
            if b.is_empty() {
                return Ok(());
            }
            let sizes = cut(s, b.len());
            cx.key(format!("{sizes:?}").as_bytes());
            if sizes.len() > 1 {
                cx.nontrivial();
            }
            let (want, ends, clean) = apart(set, &b)?;
            if form == 0 {
                cx.label("collect");
                let got = drive(&mut dec(set).collect::<Vec<_>>(), &b, &sizes, exact)?;
                collected(cx, "collect", got, &b, &ends, &sizes, want, clean)
            } else {
                cx.label("collectn");
                let k = s.below(want.len() + 2);
                cx.key(&[k as u8]);
                let got = drive(&mut dec(set).collectn::<Vec<_>>(k), &b, &sizes, exact)?;
                let end = if k == 0 { 0 } else { ends.get(k - 1).copied().unwrap_or(0) };
                same(
                    "collectn",
                    got.map(|(v, n)| (shapes(v), n)),
                    (k <= want.len()).then(|| (want[..k].to_vec(), end)),
                )
            }
        }
        2 => {
            // Frames with a length, not always the right one
            cx.label("and_then length");
            let (mut b, mut want, mut good) = (vec![], vec![], true);
            for m in &msgs {
                let mut body = m.clone();
                match s.below(12) {
                    0 => {
                        let k = s.below(body.len() + 1);
                        body.truncate(k);
                    }
                    1 => {
                        let k = s.range(1, 30);
                        body.extend(s.bytes(k));
                    }
                    _ => {}
                }
                b.extend((body.len() as u32).to_be_bytes());
                b.extend(&body);
                let (o, n) = feed_once(&mut *set.decoder(), &body)?;
                good &= matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) && n == body.len();
                want.push(o.shape());
            }
            let sizes = cut(s, b.len());
            cx.key(&b);
            cx.key(format!("{sizes:?}").as_bytes());
            if sizes.len() > 1 {
                cx.nontrivial();
            }
            let mut d = U32beDecoder::new().and_then(|n| dec(set).length(u64::from(n))).collectn::<Vec<_>>(msgs.len());
            let got = drive(&mut d, &b, &sizes, exact)?;
            cx.label(if good { "frames of the right length" } else { "a frame of another length, or a rejected message" });
            same("frames", got.map(|(v, n)| (shapes(v), n)), good.then_some((want, b.len())))
        }
        3 => {
            // Between other items, and perhaps left out
            cx.label("chain, omit, map, try_map, map_err");
            let omit = s.chance(40);
            let m = &msgs[0];
            let (first, last) = (s.u8(), s.u16());
            let mut b = vec![first];
            if !omit {
                b.extend(m);
            }
            b.extend(last.to_be_bytes());
            let sizes = cut(s, b.len());
            cx.key(format!("{omit} {sizes:?}").as_bytes());
            let (o, n) = feed_once(&mut *set.decoder(), &b[1..])?;
            let ok = matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) && n == m.len();
            if ok && !omit {
                cx.nontrivial();
            }
            let refuse = s.chance(30);
            let d = dec(set)
                .map_err(|e: Error| e)
                .map(|o: Outcome| o.shape())
                .try_map(|t: String| if refuse { Err(Error::from(ErrorKind::Other)) } else { Ok(t) })
                .omit(omit);
            let mut d = U8Decoder::new().chain(d).chain(U16beDecoder::new());
            let got = drive(&mut d, &b, &sizes, exact)?;
            let want = if omit {
                Some((((first, None), last), b.len()))
            } else if !ok && n != m.len() && matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) {
                // The length is another one: what follows is not what it was.
                return Ok(());
            } else if ok && !refuse {
                Some((((first, Some(o.shape())), last), b.len()))
            } else {
                None
            };
            same("chain", got, want)
        }
        4 => {
            cx.label("max_bytes");
            let m = &msgs[0];
            let (o, n) = feed_once(&mut *set.decoder(), m)?;
            let ok = matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) && n == m.len();
            let limit = match s.below(3) {
                0 => m.len(),
                1 => m.len().saturating_sub(s.range(1, 20)),
                _ => m.len() + s.below(20),
            };
            let sizes = cut(s, m.len());
            cx.key(format!("{limit} {sizes:?}").as_bytes());
            if ok {
                cx.nontrivial();
            } else {
                return Ok(());
            }
            let got = drive(&mut dec(set).max_bytes(limit as u64), m, &sizes, exact)?;
            same("max_bytes", got.map(|(o, n)| (o.shape(), n)), (limit >= m.len()).then_some((o.shape(), n)))
        }
        5 => {
            // Several streams taken in turns
            cx.label("slice");
            cx.nontrivial();
            let mut streams: Vec<(Slice<D>, usize, Option<Outcome>)> = msgs.iter().map(|_| (dec(set).slice(), 0, None)).collect();
            let mut open: Vec<usize> = (0..msgs.len()).collect();
            let mut turns = 0;
            while !open.is_empty() && turns < 400 {
                turns += 1;
                let j = s.below(open.len());
                let i = open[j];
                let (d, at, out) = &mut streams[i];
                let k = match s.below(3) {
                    0 => s.below(4),
                    1 => s.below(40),
                    _ => 70000,
                };
                d.set_consumable_bytes(k as u64);
                let rest = &msgs[i][*at..];
                let left = rest.len();
                let r = d.decode(rest, mark(exact, 0));
                match r {
                    Ok(n) => {
                        ensure!(n <= left.min(k) && d.consumable_bytes() == (k - n) as u64, "slice: {n} bytes of {k}");
                        *at += n;
                        if d.is_idle() {
                            *out = Some(d.finish_decoding().unwrap_or(Outcome::Rejected));
                        } else {
                            ensure!(n == left.min(k), "slice: {n} bytes of {k} taken of {left} at hand");
                        }
                    }
                    Err(_) => *out = Some(Outcome::Rejected),
                }
                if out.is_some() || *at == msgs[i].len() {
                    open.remove(j);
                }
            }
            for (i, (_, at, out)) in streams.iter().enumerate() {
                if open.contains(&i) {
                    continue;
                }
                let (o, n) = feed_once(&mut *set.decoder(), &msgs[i])?;
                match out {
                    Some(got) => {
                        same("slice", got.shape(), o.shape())?;
                        if matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) {
                            same("slice", *at, n)?;
                        }
                    }
                    None => same("slice", "not accepted".to_string(), o.shape())?,
                }
            }
            Ok(())
        }
        6 => {
            cx.label("peekable");
            let (want, ends, clean) = apart(set, &b)?;
            let sizes = cut(s, b.len());
            cx.key(format!("{sizes:?}").as_bytes());
            if !want.is_empty() && sizes.len() > 1 {
                cx.nontrivial();
            }
            let mut d: Peekable<D> = dec(set).peekable();
            let (mut at, mut end, mut got) = (0, 0, vec![]);
            for k in &sizes {
                end += k;
                while at < end {
                    let n = match d.decode(&b[at..end], mark(exact, b.len() - end)) {
                        Ok(n) => n,
                        Err(_) => {
                            ensure!(!clean && got == want, "peekable: an error after {} messages of {}", got.len(), want.len());
                            return Ok(());
                        }
                    };
                    at += n;
                    ensure!(n > 0 || d.is_idle(), "no progress at byte {at}");
                    if d.is_idle() {
                        let seen = d.peek().map(|o| o.shape());
                        ensure!(d.decode(&b[at..], Eos::new(true)).ok() == Some(0), "a peeked decoder goes on");
                        let Ok(o) = d.finish_decoding() else { fail!("peekable: the item seen is gone") };
                        same("peekable", seen, Some(o.shape()))?;
                        got.push(o.shape());
                        same("peekable", Some(&at), ends.get(got.len() - 1))?;
                    }
                }
            }
            same("peekable", got, want)
        }
        7 => {
            // Ends of the stream between messages
            cx.label("maybe_eos");
            let (want, ends, clean) = apart(set, &b)?;
            if !clean || b.is_empty() {
                return Ok(());
            }
            cx.nontrivial();
            let mut d = dec(set).maybe_eos();
            let mut at = 0;
            for (w, end) in want.iter().zip(ends) {
                for _ in 0..s.below(3) {
                    let r = d.decode(&[], Eos::new(true));
                    ensure!(r.is_ok_and(|n| n == 0) && !d.is_idle(), "maybe_eos: the end between messages");
                }
                let sizes = cut(s, end - at);
                cx.key(format!("{sizes:?}").as_bytes());
                let got = drive(&mut d, &b[at..end], &sizes, exact)?;
                same("maybe_eos", got.map(|(o, n)| (o.shape(), n)), Some((w.clone(), end - at)))?;
                at = end;
            }
            // Once an item has begun, it is an error.
            let k = s.range(1, 19).min(b.len());
            if d.decode(&b[..k], Eos::new(false)).is_ok() {
                let r = d.decode(&[], Eos::new(true));
                ensure!(r.is_err(), "maybe_eos: a message cut short after {k} bytes: {:?}", r.ok());
            }
            Ok(())
        }
        8 => {
            // A tag says which attributes are known
            cx.label("and_then, of several sets");
            cx.nontrivial();
            let other = gen::any_set(s);
            let (mut b, mut want, mut good) = (vec![], vec![], true);
            for m in &msgs {
                let tag = s.bool();
                b.push(tag as u8);
                b.extend(m);
                let (o, n) = feed_once(&mut *(if tag { other } else { set }).decoder(), m)?;
                good &= matches!(o, Outcome::Msg(_) | Outcome::Broken(_)) && n == m.len();
                want.push(o.shape());
            }
            if !good {
                return Ok(());
            }
            let sizes = cut(s, b.len());
            cx.key(&b);
            cx.key(other.name().as_bytes());
            cx.key(format!("{sizes:?}").as_bytes());
            let mut d = U8Decoder::new().and_then(|t| dec(if t != 0 { other } else { set })).collect::<Vec<_>>();
            let got = drive(&mut d, &b, &sizes, exact)?;
            same("tagged", got.map(|(v, n)| (shapes(v), n)), Some((want, b.len())))
        }
        _ => {
            // Nested: streams of lengths of messages
            cx.label("length of collect");
            let delta = if s.chance(60) { s.range(1, 12) } else { 0 };
            let n = b.len() - delta.min(b.len());
            if n == 0 {
                return Ok(());
            }
            let (want, ends, clean) = apart(set, &b[..n])?;
            // Bytes after the end are left
            let sizes = cut(s, b.len());
            cx.key(format!("{n} {sizes:?}").as_bytes());
            if sizes.len() > 1 {
                cx.nontrivial();
            }
            let got = drive(&mut dec(set).collect::<Vec<_>>().length(n as u64), &b, &sizes, exact)?;
            let mut at = 0;
            let inside: Vec<usize> = sizes
                .iter()
                .map(|k| {
                    at += k;
                    k.saturating_sub(at.saturating_sub(n))
                })
                .filter(|k| *k > 0)
                .collect();
            collected(cx, "length of collect", got, &b[..n], &ends, &inside, want, clean)
        }
    }
}

// ---- Encoders

struct E(Box<dyn DynEnc>);
impl Encode for E {
    type Item = Box<dyn DynMsg>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(buf, eos).map_err(error)
    }
    fn start_encoding(&mut self, m: Box<dyn DynMsg>) -> bytecodec::Result<()> {
        self.0.start(&*m).map_err(error)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl SizedEncode for E {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact()
    }
}
fn enc(set: &dyn DynSet) -> E {
    E(set.encoder())
}

/// Drains an encoder into buffers of the sizes, over and over.
/// `None` after an error, with what has been written.
fn write<T: Encode>(e: &mut T, sizes: &[usize], exact: Option<fn(&T) -> u64>, want: usize) -> R<(Vec<u8>, bool)> {
    let mut out = vec![];
    let mut buf = vec![0; sizes.iter().copied().max().unwrap_or(1)];
    for k in sizes.iter().cycle() {
        if e.is_idle() {
            return Ok((out, true));
        }
        if let Some(f) = exact {
            let (says, left) = (f(e), want as u64 - out.len() as u64);
            ensure!(says == left, "{says} bytes announced, {left} left");
        }
        match e.encode(&mut buf[..*k], Eos::new(false)) {
            Ok(n) => {
                ensure!(n <= *k, "{n} bytes written into {k}");
                out.extend(&buf[..n]);
                ensure!(out.len() <= want, "{} bytes written of {want}", out.len());
                ensure!(n > 0 || *k == 0 || e.is_idle(), "no progress at byte {}", out.len());
            }
            Err(_) => return Ok((out, false)),
        }
    }
    fail!("no buffers");
}

fn c29_encode(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let mut msgs: Vec<(Box<dyn DynMsg>, Vec<u8>)> = vec![];
    for _ in 0..s.range(1, 4) {
        let m = if s.chance(80) {
            let b = gen::wires(s, set.known(), &WireOpts { big: false, ..gen::CLEAN }).bytes();
            match sets::decode_once(set, &b) {
                Ok(Decoded::Msg(m)) => m,
                _ => return Ok(()),
            }
        } else {
            build(set, &gen::spec(s, set, &SpecOpts { auth: true, big: false }))?
        };
        let b = m.encode().map_err(|e| Fail(format!("refused: {e:?}")))?;
        describe_bytes(cx, set, &b);
        msgs.push((m, b));
    }
    let all: Vec<u8> = msgs.iter().flat_map(|m| m.1.clone()).collect();
    let mut sizes = gen::pieces(s, all.len());
    if sizes.iter().all(|n| *n == 0) {
        sizes.push(1);
    }
    let form = s.below(9);
    cx.key(format!("{form} {sizes:?}").as_bytes());
    if msgs.len() > 1 || sizes.len() > 1 {
        cx.nontrivial();
    }
    let (m, b) = (msgs[0].0.clone_box(), msgs[0].1.clone());
    let failed = |_: Error| Fail("refused".to_string());
    match form {
        0 => {
            cx.label("repeat");
            let mut e = enc(set).repeat();
            e.start_encoding(msgs.into_iter().map(|m| m.0)).map_err(failed)?;
            same("repeat", write(&mut e, &sizes, None, all.len())?, (all, true))
        }
        1 => {
            cx.label("pre_encode");
            let mut e = enc(set).pre_encode();
            for (m, b) in msgs {
                e.start_encoding(m).map_err(failed)?;
                same("pre_encode", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), b.len())?, (b, true))?;
            }
            Ok(())
        }
        2 | 3 => {
            let limit = match s.below(3) {
                0 => b.len(),
                1 => b.len() - s.below(b.len()),
                _ => b.len() + s.below(20),
            };
            cx.key(format!("{limit}").as_bytes());
            let (out, done) = if form == 2 {
                cx.label("length");
                let mut e = enc(set).length(limit as u64);
                e.start_encoding(m).map_err(failed)?;
                write(&mut e, &sizes, None, b.len())?
            } else {
                cx.label("max_bytes");
                let mut e = enc(set).max_bytes(limit as u64);
                e.start_encoding(m).map_err(failed)?;
                write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), b.len())?
            };
            ensure!(b.starts_with(&out), "{} is not the beginning of {}", hex(&out), hex(&b));
            let right = if form == 2 { limit == b.len() } else { limit >= b.len() };
            same("done", done, right)?;
            same("whole", out.len() == b.len() || !done, true)
        }
        4 => {
            cx.label("optional, last");
            let mut e = enc(set).optional();
            for (m, b) in &msgs {
                if s.bool() {
                    e.start_encoding(None).map_err(failed)?;
                    same("optional", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), 0)?, (vec![], true))?;
                }
                e.start_encoding(Some(m.clone_box())).map_err(failed)?;
                same("optional", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), b.len())?, (b.clone(), true))?;
            }
            // The last item may follow one that is being encoded.
            let mut inner = enc(set);
            let (mut want, with_first) = (b.clone(), s.bool());
            if with_first {
                inner.start_encoding(m.clone_box()).map_err(failed)?;
            }
            let (n, c) = msgs.last().map(|m| (m.0.clone_box(), m.1.clone())).expect("a message");
            want = if with_first { [want, c].concat() } else { c };
            let mut e = inner.last(n);
            same("last", write(&mut e, &sizes, None, want.len())?, (want, true))
        }
        5 => {
            cx.label("chain");
            let (first, last) = (s.u16(), s.u8());
            let mut e = U16beEncoder::new().chain(enc(set)).chain(U8Encoder::new());
            for (m, b) in msgs {
                e.start_encoding(((first, m), last)).map_err(failed)?;
                let want = [first.to_be_bytes().to_vec(), b, vec![last]].concat();
                same("chain", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), want.len())?, (want, true))?;
            }
            Ok(())
        }
        6 => {
            cx.label("slice");
            let mut streams: Vec<(Slice<E>, Vec<u8>)> = vec![];
            for (m, _) in &msgs {
                let mut e = enc(set).slice();
                e.start_encoding(m.clone_box()).map_err(failed)?;
                streams.push((e, vec![]));
            }
            let mut buf = vec![0; 70000];
            let mut turns = 0;
            while turns < 400 && streams.iter().any(|x| !x.0.is_idle()) {
                turns += 1;
                let i = s.below(msgs.len());
                let (e, out) = &mut streams[i];
                if e.is_idle() {
                    continue;
                }
                let left = msgs[i].1.len() - out.len();
                same("slice", e.exact_requiring_bytes(), left as u64)?;
                let k = match s.below(3) {
                    0 => s.below(4),
                    1 => s.below(40),
                    _ => 70000,
                };
                e.set_consumable_bytes(k as u64);
                let Ok(n) = e.encode(&mut buf, Eos::new(false)) else { fail!("slice: an error") };
                ensure!(n == left.min(k), "slice: {n} bytes written of {left} left, {k} allowed");
                out.extend(&buf[..n]);
            }
            for ((e, out), (_, b)) in streams.iter().zip(&msgs) {
                ensure!(b.starts_with(out) && e.is_idle() == (b.len() == out.len()), "slice: {} of {}", hex(out), hex(b));
            }
            Ok(())
        }
        7 => {
            cx.label("map_from, try_map_from, map_err");
            let refuse = s.chance(40);
            let mut e = enc(set).map_err(|e: Error| e).try_map_from(|m: Box<dyn DynMsg>| -> Result<Box<dyn DynMsg>, Error> {
                if refuse {
                    Err(Error::from(ErrorKind::Other))
                } else {
                    Ok(m)
                }
            });
            let r = e.start_encoding(m);
            ensure!(r.is_err() == refuse, "try_map_from: {}", r.is_err());
            if !refuse {
                same("try_map_from", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), b.len())?, (b, true))?;
            }
            let mut e = enc(set).map_from(|n: usize| msgs[n].0.clone_box());
            for (i, (_, b)) in msgs.iter().enumerate() {
                e.start_encoding(i).map_err(failed)?;
                same("map_from", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), b.len())?, (b.clone(), true))?;
            }
            Ok(())
        }
        _ => {
            cx.label("length of repeat, with its size before");
            let n = all.len();
            let mut e = U16beEncoder::new().chain(enc(set).repeat().length(n as u64).pre_encode());
            e.start_encoding((n as u16, msgs.into_iter().map(|m| m.0))).map_err(failed)?;
            let want = [(n as u16).to_be_bytes().to_vec(), all].concat();
            same("length of repeat", write(&mut e, &sizes, Some(|e| e.exact_requiring_bytes()), want.len())?, (want, true))
        }
    }
}
