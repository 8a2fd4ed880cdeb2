//! C28: the work done for a message grows in proportion to its size.
//! C24: checking credentials does not tell how near a wrong value is.
use super::*;
use crate::engine::{random, Cx, Fail, Prop, R};
use crate::gen::{self, Key};
use crate::model::{Kind, Wire, FP, MI};
use crate::sets::{self, DynSet};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use stun_codec::rfc5389::attributes::{Realm, Username};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "A case is a message with a MESSAGE-INTEGRITY, credentials, and three wrong values of that attribute that agree with the right one in 0, in some and in nearly all of their bytes; callgrind counts the instructions of checking each. Non-trivial if all three were measured and refused.",
        assumptions: &["valgrind counts instructions correctly, and the time taken depends on the instructions executed.", "The library is compiled with optimisations (its comparison is left to the compiler)."],
        parts: vec![random("guesses", 10, c24)],
    }, Prop {
        id: "C28",
        rule: "A case is an operation (decode at once, bytewise or in pieces; encode at once or into small buffers; copy, look up, list, authenticate, check), an attribute set, and a few attributes that are repeated, or one long attribute, to fill messages of about 15 and 60 KiB, perhaps with a broken attribute; callgrind counts the instructions executed by the operation for both. Non-trivial if both were measured.",
        assumptions: &["valgrind counts instructions correctly.", "Messages have at most one MESSAGE-INTEGRITY and one FINGERPRINT known to the set (each takes time in proportion to what precedes it)."],
        parts: vec![random("growth", 22, c28)],
    }]
}

const SMALL: usize = 15_000;
const LARGE: usize = 60_000;
/// Four times the size may take so many times the instructions: what is made of many
/// allocations has the allocator's own unevenness in it.
fn ratio(w: Work) -> f64 {
    match w {
        Work::CloneDrop | Work::List | Work::Debug => 7.0,
        _ => 5.5,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Work {
    DecodeOnce,
    DecodePieces(usize),
    EncodeOnce,
    EncodeBuffers(usize),
    CloneDrop,
    LookUp,
    List,
    NewFp,
    NewMi,
    CheckShort,
    CheckLong,
    Debug,
}
/// Whether values of the type may have any length.
fn scalable(ty: u16) -> bool {
    matches!(model::kind(ty), Some(Kind::Bytes | Kind::Types | Kind::Error))
}
fn text(ty: u16) -> bool {
    matches!(model::kind(ty), Some(Kind::TextBytes(_) | Kind::TextChars(_)))
}
/// An attribute with a value of so many bytes (or nearly).
fn long_one(set: &dyn DynSet, ty: u16, n: usize, seed: u32) -> Wire {
    let n = n / 4 * 4;
    let mut rng = crate::src::Rng::new(u64::from(seed));
    let mut bytes = |n: usize| -> Vec<u8> {
        match seed % 4 {
            0 => vec![0; n],
            1 => vec![seed as u8; n],
            _ => (0..n).map(|_| rng.next() as u8).collect(),
        }
    };
    let chars = |n: usize| -> Vec<u8> {
        let some: &[&str] = &["a", "\u{e9}\u{e9}", "a\u{20ac}", "\u{1f600}", " "];
        some[seed as usize % some.len()].bytes().cycle().take(n / 4 * 4).collect()
    };
    let value = match model::kind(ty).filter(|_| set.known().knows(ty) && !set.known().raw) {
        Some(Kind::Error) => [vec![0, 0, 4, (seed % 100) as u8], chars(n - 4)].concat(),
        Some(Kind::TextBytes(_) | Kind::TextChars(_)) => chars(n),
        _ => bytes(n),
    };
    Wire::new(ty, value)
}
struct Case {
    set: &'static dyn DynSet,
    work: Work,
    first: Vec<Wire>,
    repeated: Vec<Wire>,
    /// The type of one long attribute instead of the repeated ones.
    long: Option<(u16, u32)>,
    last: Vec<Wire>,
    mac: Option<Key>,
    fp: bool,
    tid: [u8; 12],
}
impl Case {
    fn draw(s: &mut Src) -> Case {
        let mut set = gen::any_set(s);
        // Every other case has one long attribute
        let long = s.bool().then(|| {
            let types: Vec<u16> = model::ATTRS.iter().map(|(t, _, _)| *t).filter(|t| scalable(*t)).collect();
            let ty = match s.below(types.len() + 2) {
                i if i < types.len() => types[i],
                i if i == types.len() => {
                    let texts: Vec<u16> = model::ATTRS.iter().map(|(t, _, _)| *t).filter(|t| text(*t)).collect();
                    texts[s.below(texts.len())]
                }
                _ => gen::attr_type(s) | 0x4000,
            };
            let all = sets::sets();
            if model::kind(ty).is_some() && !set.known().knows(ty) {
                set = &**all.iter().find(|x| !x.known().raw && x.known().knows(ty)).expect("a set with the type");
            }
            ty
        });
        let work = match s.below(14) {
            0 | 1 => Work::DecodeOnce,
            2 => Work::DecodePieces(1),
            3 | 4 => Work::DecodePieces(1 + s.below(40)),
            5 => Work::EncodeOnce,
            6 => Work::EncodeBuffers(1 + s.below(40)),
            7 => Work::CloneDrop,
            8 => Work::LookUp,
            9 => Work::List,
            10 => Work::NewFp,
            11 => Work::NewMi,
            12 => *s.pick(&[Work::CheckShort, Work::CheckLong]),
            _ => Work::Debug,
        };
        let tid = gen::tid(s);
        let mut some = |s: &mut Src, most: usize, odd: u16| -> Vec<Wire> {
            let o = gen::WireOpts { odd, reserved: 0, pad: 60, bad_fp: 0, big: false };
            let mut v = gen::wires(s, set.known(), &o).attrs;
            v.retain(|w| w.ty != MI && w.ty != FP && w.len() < 1200);
            v.truncate(most);
            v
        };
        let receives = matches!(work, Work::DecodeOnce | Work::DecodePieces(_));
        let mut repeated = some(s, 4, 0);
        if repeated.is_empty() {
            let n = s.below(12);
            repeated.push(Wire::new(gen::attr_type(s) | 0x4000, s.bytes(n)));
        }
        let broken = if receives && s.chance(60) { 256 } else { 0 };
        let first = if s.bool() { some(s, 2, broken) } else { vec![] };
        let last = if s.bool() { some(s, 2, broken) } else { vec![] };
        let long = long.map(|ty| (ty, s.u32()));
        let mac = s.bool().then(|| gen::key(s)).filter(super::auth::valid);
        Case { set, work, first, repeated, long, last, mac, fp: s.bool(), tid }
    }
    fn bytes(&self, size: usize) -> Vec<u8> {
        let mut b = model::header(0, 1, &self.tid, 0);
        let put = |b: &mut Vec<u8>, w: &Wire| {
            w.put(b);
            let n = ((b.len() - 20) as u16).to_be_bytes();
            b[2..4].copy_from_slice(&n);
        };
        self.first.iter().for_each(|w| put(&mut b, w));
        if let Some((ty, seed)) = self.long {
            let w = long_one(self.set, ty, size - 4 - b.len(), seed);
            put(&mut b, &w);
        } else {
            for w in self.repeated.iter().cycle() {
                if b.len() + w.len() > size {
                    break;
                }
                put(&mut b, w);
            }
        }
        self.last.iter().for_each(|w| put(&mut b, w));
        if let Some(k) = &self.mac {
            let mac = model::mac_of(&b, &k.bytes());
            put(&mut b, &Wire::new(MI, mac.to_vec()));
        }
        if self.fp {
            let crc = model::crc_of(&b);
            put(&mut b, &Wire::new(FP, crc.to_be_bytes().to_vec()));
        }
        b
    }
    /// Does the work, in a way the profiler sees; `None` if this case has none to do.
    fn perform(&self, size: usize) -> Option<()> {
        let b = self.bytes(size);
        let message = || match sets::decode_once(self.set, &b) {
            Ok(Decoded::Msg(m)) => Some(m),
            _ => None,
        };
        match self.work {
            Work::DecodeOnce => {
                let mut d = self.set.decoder();
                metered(&mut || {
                    let n = d.decode(&b, Eos::new(true));
                    std::hint::black_box(n).ok();
                    std::hint::black_box(d.finish()).ok();
                });
            }
            Work::DecodePieces(k) => {
                let mut d = self.set.decoder();
                metered(&mut || {
                    let mut at = 0;
                    while at < b.len() {
                        let end = (at + k).min(b.len());
                        match d.decode(&b[at..end], Eos::new(end == b.len())) {
                            Ok(n) if n > 0 => at += n,
                            _ => break,
                        }
                        if d.is_idle() {
                            break;
                        }
                        std::hint::black_box(d.requiring());
                    }
                    std::hint::black_box(d.finish()).ok();
                });
            }
            Work::EncodeOnce => {
                let m = message()?;
                metered(&mut || {
                    std::hint::black_box(m.encode()).ok();
                });
            }
            Work::EncodeBuffers(k) => {
                let m = message()?;
                let mut e = self.set.encoder();
                let mut buf = vec![0; k];
                metered(&mut || {
                    if e.start(&*m).is_ok() {
                        while !e.is_idle() {
                            std::hint::black_box(e.exact());
                            if !matches!(e.encode(&mut buf, Eos::new(false)), Ok(n) if n > 0) {
                                break;
                            }
                        }
                    }
                });
            }
            Work::CloneDrop => {
                let m = message()?;
                metered(&mut || drop(std::hint::black_box(m.clone_box())));
            }
            Work::LookUp => {
                let m = message()?;
                let types = self.set.known().types;
                metered(&mut || {
                    for t in types.iter().take(8) {
                        std::hint::black_box(m.get(*t));
                    }
                });
            }
            Work::List => {
                let m = message()?;
                metered(&mut || drop(std::hint::black_box(m.view())));
            }
            Work::Debug => {
                let m = message()?;
                metered(&mut || drop(std::hint::black_box(m.debug())));
            }
            Work::NewFp => {
                let m = message()?;
                metered(&mut || drop(std::hint::black_box(m.new_fp())));
            }
            Work::NewMi => {
                let m = message()?;
                metered(&mut || drop(std::hint::black_box(m.new_mi_short("secret"))));
            }
            Work::CheckShort | Work::CheckLong => {
                let m = message()?;
                let mis = m.mis();
                let (_, mi) = mis.first()?;
                let (u, r) = (Username::new("user".into()).ok()?, Realm::new("realm".into()).ok()?);
                metered(&mut || {
                    if self.work == Work::CheckShort {
                        std::hint::black_box(mi.check_short_term_credential("secret")).ok();
                    } else {
                        std::hint::black_box(mi.check_long_term_credential(&u, &r, "secret")).ok();
                    }
                });
            }
        }
        Some(())
    }
}

/// The profiler counts what happens in here.
#[no_mangle]
#[inline(never)]
pub extern "C" fn stunpbt_metered(f: *mut &mut dyn FnMut()) {
    unsafe { (*f)() }
    std::hint::black_box(f);
}
fn metered(f: &mut dyn FnMut()) {
    let mut f = f;
    stunpbt_metered(&mut f)
}

/// The program that is profiled: does the work of the case with these choices.
pub fn measure(choices: &str, what: &str) -> i32 {
    let data: Vec<u8> = (0..choices.len() / 2).filter_map(|i| u8::from_str_radix(&choices[2 * i..2 * i + 2], 16).ok()).collect();
    let mut s = Src::replay(&data);
    let done = match what.strip_prefix("guess") {
        Some(i) => Guesses::draw(&mut s).check(i.parse().expect("a number")),
        None => Case::draw(&mut s).perform(if what == "large" { LARGE } else { SMALL }),
    };
    match done {
        Some(()) => println!("DONE"),
        None => println!("NOTHING"),
    }
    0
}

enum Count {
    Instructions(u64),
    Nothing,
    TooLong,
    Crashed(String),
}
const LIMIT: Duration = Duration::from_secs(120);

fn count(choices: &str, what: &str) -> R<Count> {
    let unable = |e: String| -> ! {
        // No verdict can be had.
        eprintln!("valgrind cannot be used: {e}");
        std::process::exit(2);
    };
    let exe = std::env::current_exe().expect("own path");
    let mut child = match Command::new("valgrind")
        .args(["--tool=callgrind", "--callgrind-out-file=/dev/null", "--toggle-collect=stunpbt_metered"])
        .arg(exe)
        .args(["measure", choices, what])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => unable(e.to_string()),
    };
    let start = Instant::now();
    let mut wait = Duration::from_millis(5);
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if start.elapsed() < LIMIT => {
                std::thread::sleep(wait);
                wait = (wait * 2).min(Duration::from_millis(50));
            }
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return Ok(Count::TooLong);
            }
        }
    }
    let o = child.wait_with_output().map_err(|e| Fail(e.to_string()))?;
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if out.contains("NOTHING") {
        return Ok(Count::Nothing);
    }
    if !o.status.success() {
        if !err.contains("Callgrind, a call-graph") {
            unable(err.to_string());
        }
        return Ok(Count::Crashed(o.status.to_string()));
    }
    // ==123== Collected : 123456
    match err.lines().find_map(|l| l.split("Collected :").nth(1)).and_then(|n| n.trim().parse().ok()) {
        Some(n) => Ok(Count::Instructions(n)),
        None => unable(err.to_string()),
    }
}

// ---- C24

struct Guesses {
    set: &'static dyn DynSet,
    before: Vec<u8>,
    key: Key,
    right: [u8; 20],
    wrong: [[u8; 20]; 3],
}
impl Guesses {
    fn draw(s: &mut Src) -> Guesses {
        let mut set = gen::any_set(s);
        if set.known().raw || !set.known().knows(MI) {
            set = sets::set_named("single:MessageIntegrity");
        }
        let mut m = gen::wires(s, set.known(), &gen::WireOpts { big: false, ..gen::CLEAN });
        m.attrs.retain(|w| w.ty != MI && w.ty != FP);
        let key = Some(gen::key(s)).filter(super::auth::valid).unwrap_or(Key::Short("secret".into()));
        let before = m.bytes();
        let right = model::mac_of(&before, &key.bytes());
        let mut wrong = [right; 3];
        let middle = s.range(1, 18);
        // All the bytes after the first wrong one, only that one, or as it comes
        let how = s.below(3);
        for (w, i) in wrong.iter_mut().zip([0, middle, 19]) {
            w[i] ^= 1 << s.below(8);
            for b in &mut w[i + 1..] {
                *b ^= match how {
                    0 => 0xff,
                    1 => 0,
                    _ => s.u8(),
                };
            }
        }
        Guesses { set, before, key, right, wrong }
    }
    fn message(&self, mac: [u8; 20]) -> Option<Box<dyn DynMsg>> {
        let mut b = self.before.clone();
        Wire::new(MI, mac.to_vec()).put(&mut b);
        let n = ((b.len() - 20) as u16).to_be_bytes();
        b[2..4].copy_from_slice(&n);
        match sets::decode_once(self.set, &b) {
            Ok(Decoded::Msg(m)) => Some(m),
            _ => None,
        }
    }
    fn check(&self, i: usize) -> Option<()> {
        let m = self.message(self.wrong[i])?;
        let mis = m.mis();
        let (_, mi) = mis.last()?;
        let mut accepted = false;
        match &self.key {
            Key::Short(p) => metered(&mut || accepted = mi.check_short_term_credential(p).is_ok()),
            Key::Long(u, r, p) => {
                let (u, r) = (Username::new(u.clone()).ok()?, Realm::new(r.clone()).ok()?);
                metered(&mut || accepted = mi.check_long_term_credential(&u, &r, p).is_ok());
            }
        }
        (!accepted).then_some(())
    }
}

fn c24(s: &mut Src, cx: &mut Cx) -> R {
    let g = Guesses::draw(s);
    let hex: String = s.choices().iter().map(|b| format!("{b:02x}")).collect();
    cx.key(hex.as_bytes());
    cx.describe(|| format!("set {} bytes {} then MESSAGE-INTEGRITY {} with {:?}, guesses {}", g.set.name(), model::hex(&g.before), model::hex(&g.right), g.key, g.wrong.iter().map(|w| model::hex(w)).collect::<Vec<_>>().join(" ")));
    let mut counts = vec![];
    for i in 0..3 {
        match count(&hex, &format!("guess{i}"))? {
            Count::Instructions(n) => counts.push(n),
            Count::TooLong => fail!("checking takes more than {} s under callgrind", LIMIT.as_secs()),
            // Matters of C04 and C12
            Count::Crashed(_) => return Ok(cx.label("crashed")),
            Count::Nothing => return Ok(cx.label("nothing to do")),
        }
    }
    cx.nontrivial();
    cx.label(if matches!(g.key, Key::Short(_)) { "short-term" } else { "long-term" });
    let (least, most) = (counts.iter().min().expect("three"), counts.iter().max().expect("three"));
    cx.describe(|| format!("{counts:?} instructions"));
    ensure!(most - least <= SLACK, "checking wrong values takes {counts:?} instructions, depending on how many of their leading bytes are right");
    Ok(())
}
const SLACK: u64 = 0;

fn c28(s: &mut Src, cx: &mut Cx) -> R {
    let case = Case::draw(s);
    let hex: String = s.choices().iter().map(|b| format!("{b:02x}")).collect();
    let types = |v: &[Wire]| v.iter().map(|w| format!("0x{:04x}({})", w.ty, w.value.len())).collect::<Vec<_>>().join(" ");
    cx.key(hex.as_bytes());
    cx.describe(|| {
        format!(
            "set {} {:?}, {} then {} then {}{}{}",
            case.set.name(),
            case.work,
            types(&case.first),
            match case.long {
                Some((ty, seed)) => format!("a long attribute of type 0x{ty:04x} (seed {seed})"),
                None => format!("{} repeated", types(&case.repeated)),
            },
            types(&case.last),
            if case.mac.is_some() { " MESSAGE-INTEGRITY" } else { "" },
            if case.fp { " FINGERPRINT" } else { "" }
        )
    });
    let small = count(&hex, "small")?;
    let large = count(&hex, "large")?;
    match (small, large) {
        (Count::Instructions(a), Count::Instructions(b)) => {
            let (na, nb) = (case.bytes(SMALL).len(), case.bytes(LARGE).len());
            cx.nontrivial();
            let name = format!("{:?}", case.work);
            cx.label(name.split('(').next().unwrap_or(&name));
            cx.describe(|| format!("{a} instructions for {na} bytes, {b} for {nb}"));
            let limit = a as f64 * nb as f64 / na as f64 * ratio(case.work) / 4.0;
            ensure!((b as f64) <= limit, "{a} instructions for {na} bytes, but {b} for {nb} bytes");
        }
        (_, Count::TooLong) | (Count::TooLong, _) => fail!("the operation takes more than {} s under callgrind", LIMIT.as_secs()),
        (Count::Crashed(e), _) | (_, Count::Crashed(e)) => {
            // A matter of C04
            cx.label("crashed");
            cx.describe(|| e);
        }
        _ => cx.label("nothing to do"),
    }
    Ok(())
}
