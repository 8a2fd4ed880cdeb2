//! The properties. Each is a list of parts; each part is a function from choices
//! to a verdict.
use crate::engine::{Cx, Fail, Prop, R};
use crate::gen;
use crate::model::{self, hex, Parsed};
use crate::sets::{Decoded, DynDec, DynMsg, DynSet, Spec, View};
use crate::src::Src;
use crate::{ensure, fail};
use bytecodec::{ByteCount, Eos};

pub mod auth;
pub mod codec;
pub mod codecs;
pub mod compose;
pub mod cost;
pub mod hooks;
pub mod robust;
pub mod state;
pub mod stream;
pub mod unsafety;
pub mod values;

pub fn all() -> Vec<Prop> {
    let mut v = codec::props();
    v.extend(stream::props());
    v.extend(auth::props());
    v.extend(values::props());
    v.extend(hooks::props());
    v.extend(robust::props());
    v.extend(codecs::props());
    v.extend(unsafety::props());
    v.extend(state::props());
    v.extend(cost::props());
    v.extend(compose::props());
    v.sort_by_key(|p| p.id);
    v
}

/// What became of some bytes.
pub enum Outcome {
    Msg(Box<dyn DynMsg>),
    /// (class, method, transaction ID) and the report.
    Broken(crate::sets::Broken),
    /// An error instead of a message.
    Rejected,
    /// The decoder wants more.
    Unfinished,
}
impl Outcome {
    pub fn tag(&self) -> &'static str {
        match self {
            Outcome::Msg(_) => "accepted",
            Outcome::Broken(_) => "broken",
            Outcome::Rejected => "rejected",
            Outcome::Unfinished => "unfinished",
        }
    }
    pub fn accepted(&self) -> bool {
        matches!(self, Outcome::Msg(_))
    }
    /// What of it must not depend on how it came about.
    pub fn shape(&self) -> String {
        match self {
            Outcome::Msg(m) => format!("accepted {:?}", m.view()),
            Outcome::Broken(b) => format!("broken class={} method={} tid={}", b.class, b.method, hex(&b.tid)),
            Outcome::Rejected | Outcome::Unfinished => "not accepted".to_string(),
        }
    }
}

fn take(d: &mut dyn DynDec) -> Outcome {
    match d.finish() {
        Ok(Decoded::Msg(m)) => Outcome::Msg(m),
        Ok(Decoded::Broken(b)) => Outcome::Broken(b),
        Err(_) => Outcome::Rejected,
    }
}

/// Feeds pieces to a decoder until it is idle, checking every size it reports.
/// `plan`: the bytes of each piece with the end-of-stream mark given with it.
/// Returns the outcome and the number of bytes consumed.
pub fn feed(d: &mut dyn DynDec, plan: &[(&[u8], Eos)], each: impl FnMut(usize, &dyn DynDec) -> R) -> R<(Outcome, usize)> {
    feed_as(false, d, plan, each)
}
/// With `greedy`, demands that the decoder takes all it is given unless the message ends there.
pub fn feed_as(greedy: bool, d: &mut dyn DynDec, plan: &[(&[u8], Eos)], mut each: impl FnMut(usize, &dyn DynDec) -> R) -> R<(Outcome, usize)> {
    let mut consumed = 0;
    for (piece, eos) in plan {
        let mut off = 0;
        loop {
            let n = match d.decode(&piece[off..], *eos) {
                Ok(n) => n,
                Err(_) => return Ok((Outcome::Rejected, consumed)),
            };
            ensure!(n <= piece.len() - off, "decode reports {n} bytes consumed of {}", piece.len() - off);
            off += n;
            consumed += n;
            each(consumed, d)?;
            if d.is_idle() {
                let o = take(d);
                return Ok((o, consumed));
            }
            if off == piece.len() {
                break;
            }
            ensure!(!greedy, "decode takes {n} bytes only, with {} more at hand, although it is not idle", piece.len() - off);
            ensure!(n > 0, "decode makes no progress at byte {consumed} although it is not idle");
        }
    }
    Ok((Outcome::Unfinished, consumed))
}

/// Feeds all bytes at once, with the end of the stream marked.
pub fn feed_once(d: &mut dyn DynDec, bytes: &[u8]) -> R<(Outcome, usize)> {
    feed(d, &[(bytes, Eos::new(true))], |_, _| Ok(()))
}

/// The number of bytes the message that starts `b` has by its header, if it is valid.
pub fn announced(b: &[u8]) -> Option<usize> {
    model::parse_header(b).ok().map(|h| 20 + h.3)
}

/// What the model says of the message that starts `b`.
pub enum Expect {
    /// To be rejected, or cut short.
    NotAccepted(String),
    Whole(Parsed, usize),
}
pub fn expect(b: &[u8], set: &dyn DynSet) -> Expect {
    match model::parse_header(b) {
        Err(e) => Expect::NotAccepted(e),
        Ok((.., n)) if 20 + n > b.len() => Expect::NotAccepted("cut short".into()),
        Ok((.., n)) => Expect::Whole(model::parse(&b[..20 + n], set.known()).expect("whole message"), 20 + n),
    }
}

/// The view of an accepted message.
pub fn view_of(p: &Parsed) -> View {
    let attrs = p.attrs.as_ref().expect("accepted");
    View {
        class: p.class,
        method: p.method,
        tid: p.tid,
        known: attrs.iter().filter(|a| a.known).map(|a| (a.ty, a.val.clone().unwrap())).collect(),
        unknown: attrs.iter().filter(|a| !a.known).map(|a| (a.ty, a.wire.clone())).collect(),
    }
}

pub fn describe_spec(cx: &mut Cx, set: &dyn DynSet, sp: &Spec) {
    cx.key(format!("{} {sp:?}", set.name()).as_bytes());
    cx.describe(|| {
        let mut t = format!(
            "set {} class {} method 0x{:03x} tid {} attributes {:?}",
            set.name(),
            sp.class,
            sp.method,
            hex(&sp.tid),
            sp.els
        );
        if t.len() > 1500 {
            let mut n = 1500;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n);
            t.push_str("..");
        }
        t
    });
}
pub fn describe_bytes(cx: &mut Cx, set: &dyn DynSet, b: &[u8]) {
    cx.key(set.name().as_bytes());
    cx.key(b);
    cx.describe(|| format!("set {} bytes {}", set.name(), hex(b)));
}

/// Builds the message of a spec; failing to is a violation, as the values are valid.
pub fn build(set: &dyn DynSet, sp: &Spec) -> R<Box<dyn DynMsg>> {
    crate::sets::build(set, sp).map_err(|i| Fail(format!("element {i} of the message cannot be built: {:?}", sp.els[i])))
}

/// `ByteCount` as a bound, if it is one.
pub fn finite(c: ByteCount) -> Option<u64> {
    match c {
        ByteCount::Finite(n) => Some(n),
        _ => None,
    }
}

/// Splits bytes by sizes, with end-of-stream marks.
pub fn plan<'a>(s: &mut Src, b: &'a [u8], sizes: &[usize]) -> Vec<(&'a [u8], Eos)> {
    let mut v = vec![];
    let mut at = 0;
    // The last piece that is not empty is followed only by empty ones.
    for (i, n) in sizes.iter().enumerate() {
        let end = at + n;
        let last = i + 1 == sizes.len();
        let e = gen::eos(s, b.len() - end, last);
        v.push((&b[at..end], e));
        at = end;
    }
    assert_eq!(at, b.len());
    v
}

pub fn same_outcome(a: &Outcome, b: &Outcome, what: &str) -> R {
    let (x, y) = (a.shape(), b.shape());
    ensure!(x == y, "{what}: {x} versus {y}");
    if let (Outcome::Msg(a), Outcome::Msg(b)) = (a, b) {
        let (x, y) = (a.encode(), b.encode());
        ensure!(x == y, "{what}: the messages encode differently: {:?} versus {:?}", x.map(|b| hex(&b)), y.map(|b| hex(&b)));
    }
    Ok(())
}

pub fn expect_msg(o: Outcome, what: &str) -> R<Box<dyn DynMsg>> {
    match o {
        Outcome::Msg(m) => Ok(m),
        o => fail!("{what}: {} instead of accepted", o.tag()),
    }
}
