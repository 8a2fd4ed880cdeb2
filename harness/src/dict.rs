//! Values that occur literally in the library's source: numbers, texts, characters.
//!
//! A fault that needs one particular value (a length, a port, a name) is out of reach of
//! blind generation, but the value usually stands in the source. The generators draw some
//! of their values from here: more often those that the source has more often than the
//! tree this was written for (`literals.txt`).
//! Nothing is concluded from the source: it only supplies inputs.
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dict {
    /// Literals that occur more often than listed.
    pub new_ints: Vec<u64>,
    pub new_texts: Vec<Vec<u8>>,
    /// Listed literals.
    pub ints: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
const LISTED: &str = include_str!("literals.txt");

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = listed();
        if let Ok(text) = std::env::var("STUNPBT_LITERALS") {
            // For trying out the checks with other dictionaries
            (d.new_ints, d.new_texts) = parse(&text);
        } else if !cfg!(miri) {
            let found = of_source();
            let (ints, texts) = counts_listed();
            d.new_ints = found.0.into_iter().filter(|(i, n)| n > ints.get(i).unwrap_or(&0)).map(|x| x.0).collect();
            d.new_texts = found.1.into_iter().filter(|(t, n)| n > texts.get(t).unwrap_or(&0)).map(|x| x.0).collect();
        }
        d
    })
}
/// The new literals, for a replay file.
pub fn to_text() -> String {
    let d = get();
    let ints: Vec<String> = d.new_ints.iter().map(|i| i.to_string()).collect();
    let texts: Vec<String> = d.new_texts.iter().map(|t| hex(t)).collect();
    format!("{}|{}", ints.join(","), texts.join(","))
}
/// Uses the literals of a replay file instead of those of the source.
pub fn set(text: &str) {
    let mut d = listed();
    (d.new_ints, d.new_texts) = parse(text);
    let _ = DICT.set(d);
}
fn parse(text: &str) -> (Vec<u64>, Vec<Vec<u8>>) {
    let (ints, texts) = text.split_once('|').unwrap_or((text, ""));
    (
        ints.split(',').filter_map(|i| i.parse().ok()).collect(),
        texts.split(',').filter(|t| !t.is_empty()).map(unhex).collect(),
    )
}
/// The list to be kept in `literals.txt`.
pub fn list() -> String {
    let (ints, texts) = of_source();
    let mut s = String::new();
    ints.iter().for_each(|(i, n)| s.push_str(&format!("{i} {n}\n")));
    texts.iter().for_each(|(t, n)| s.push_str(&format!("x{} {n}\n", hex(t))));
    s
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
type Ints = BTreeMap<u64, u32>;
type Texts = BTreeMap<Vec<u8>, u32>;
fn counts_listed() -> (Ints, Texts) {
    let (mut ints, mut texts) = (Ints::new(), Texts::new());
    for l in LISTED.lines() {
        let Some((v, n)) = l.split_once(' ') else { continue };
        let n = n.parse().expect("count");
        match v.strip_prefix('x') {
            Some(t) => drop(texts.insert(unhex(t), n)),
            None => drop(ints.insert(v.parse().expect("number"), n)),
        }
    }
    (ints, texts)
}
fn listed() -> Dict {
    let (ints, texts) = counts_listed();
    Dict { ints: ints.into_keys().collect(), texts: texts.into_keys().collect(), ..Dict::default() }
}

fn of_source() -> (Ints, Texts) {
    // The library is where the harness's manifest says.
    let manifest = include_str!("../Cargo.toml");
    let path = manifest
        .lines()
        .find(|l| l.starts_with("stun_codec"))
        .and_then(|l| l.split('"').nth(1))
        .unwrap_or("/repo");
    let mut files = vec![];
    walk(&Path::new(path).join("src"), &mut files, 0);
    let (mut ints, mut texts) = (Ints::new(), Texts::new());
    for f in files {
        if let Ok(b) = fs::read(&f) {
            let toks = tokens(&b);
            literals(&toks, &mut ints, &mut texts);
        }
    }
    (ints, texts)
}
fn walk(dir: &Path, files: &mut Vec<std::path::PathBuf>, depth: usize) {
    let Ok(entries) = fs::read_dir(dir) else { return };
    let mut entries: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    entries.sort();
    for p in entries {
        if p.is_dir() && depth < 8 {
            walk(&p, files, depth + 1);
        } else if p.extension().is_some_and(|e| e == "rs") && files.len() < 1000 {
            files.push(p);
        }
    }
}

#[derive(Debug, PartialEq)]
enum Tok {
    Int(u64),
    Text(Vec<u8>),
    Sign(u8),
    Word,
}

/// Literals and signs of Rust source, without comments.
fn tokens(b: &[u8]) -> Vec<Tok> {
    let mut v = vec![];
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    while i < b.len() {
        let c = b[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            let mut depth = 0;
            while i < b.len() {
                match (b[i], at(i + 1)) {
                    (b'/', b'*') => (depth += 1, i += 2).1,
                    (b'*', b'/') => (depth -= 1, i += 2).1,
                    _ => i += 1,
                }
                if depth == 0 {
                    break;
                }
            }
        } else if c == b'"' {
            let (t, end) = quoted(b, i + 1, b'"');
            v.push(Tok::Text(t));
            i = end;
        } else if (c == b'r' || (c == b'b' && at(i + 1) == b'r')) && {
            let mut j = i + 1 + usize::from(c == b'b');
            while at(j) == b'#' {
                j += 1;
            }
            at(j) == b'"'
        } {
            let mut j = i + 1 + usize::from(c == b'b');
            let mut hashes = 0;
            while at(j) == b'#' {
                hashes += 1;
                j += 1;
            }
            j += 1;
            let start = j;
            while j < b.len() && !(b[j] == b'"' && (1..=hashes).all(|k| at(j + k) == b'#')) {
                j += 1;
            }
            v.push(Tok::Text(b[start..j.min(b.len())].to_vec()));
            i = j + 1 + hashes;
        } else if c == b'b' && at(i + 1) == b'"' {
            let (t, end) = quoted(b, i + 2, b'"');
            v.push(Tok::Text(t));
            i = end;
        } else if c == b'b' && at(i + 1) == b'\'' {
            let (t, end) = quoted(b, i + 2, b'\'');
            v.push(Tok::Int(u64::from(t.first().copied().unwrap_or(0))));
            i = end;
        } else if c == b'\'' {
            // A character, or a lifetime
            if at(i + 1) == b'\\' || {
                let n = match at(i + 1) {
                    0..=0x7f => 1,
                    0x80..=0xdf => 2,
                    0xe0..=0xef => 3,
                    _ => 4,
                };
                at(i + 1 + n) == b'\''
            } {
                let (t, end) = quoted(b, i + 1, b'\'');
                v.push(Tok::Text(t));
                i = end;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while at(i).is_ascii_alphanumeric() || at(i) == b'_' {
                i += 1;
            }
            let text: String = b[start..i].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
            v.extend(number(&text).map(Tok::Int));
        } else if c.is_ascii_alphabetic() || c == b'_' || c >= 0x80 {
            while at(i).is_ascii_alphanumeric() || at(i) == b'_' || at(i) >= 0x80 {
                i += 1;
            }
            v.push(Tok::Word);
        } else {
            if !c.is_ascii_whitespace() {
                v.push(Tok::Sign(c));
            }
            i += 1;
        }
    }
    v
}
fn number(t: &str) -> Option<u64> {
    let t = match t.find(['u', 'i', 'f']).filter(|_| !t.starts_with("0x")) {
        Some(p) => &t[..p],
        None => t,
    };
    if let Some(h) = t.strip_prefix("0x") {
        let h = ["usize", "isize", "u128", "i128", "u16", "u32", "u64", "i16", "i32", "i64", "u8", "i8"]
            .iter()
            .find_map(|s| h.strip_suffix(s))
            .unwrap_or(h);
        u64::from_str_radix(h, 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u64::from_str_radix(h, 2).ok()
    } else if let Some(h) = t.strip_prefix("0o") {
        u64::from_str_radix(h, 8).ok()
    } else {
        t.parse().ok()
    }
}
/// The text up to the closing quote, and the position behind that.
fn quoted(b: &[u8], mut i: usize, quote: u8) -> (Vec<u8>, usize) {
    let mut t = vec![];
    while i < b.len() && b[i] != quote {
        if b[i] != b'\\' {
            t.push(b[i]);
            i += 1;
            continue;
        }
        let c = b.get(i + 1).copied().unwrap_or(0);
        i += 2;
        match c {
            b'n' => t.push(b'\n'),
            b'r' => t.push(b'\r'),
            b't' => t.push(b'\t'),
            b'0' => t.push(0),
            b'x' => {
                let h = String::from_utf8_lossy(b.get(i..i + 2).unwrap_or(b"")).into_owned();
                t.push(u8::from_str_radix(&h, 16).unwrap_or(0));
                i += 2;
            }
            b'u' => {
                let end = b[i.min(b.len())..].iter().position(|c| *c == b'}').map_or(b.len(), |p| i + p);
                let h: String = b[i.min(end)..end].iter().filter(|c| c.is_ascii_hexdigit()).map(|c| *c as char).collect();
                let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?');
                t.extend(c.to_string().bytes());
                i = end + 1;
            }
            b'\n' => {
                while i < b.len() && b[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            c => t.push(c),
        }
    }
    (t, i + 1)
}
fn literals(toks: &[Tok], ints: &mut Ints, texts: &mut Texts) {
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::Int(n) => {
                *ints.entry(*n).or_insert(0) += 1;
                // The value of simple expressions
                let rest = &toks[i + 1..];
                let v = match rest {
                    [Tok::Sign(b'<'), Tok::Sign(b'<'), Tok::Int(m), ..] => u32::try_from(*m).ok().and_then(|m| n.checked_shl(m)),
                    [Tok::Sign(b'*'), Tok::Int(m), ..] => n.checked_mul(*m),
                    [Tok::Sign(b'+'), Tok::Int(m), ..] => n.checked_add(*m),
                    [Tok::Sign(b'-'), Tok::Int(m), ..] => n.checked_sub(*m),
                    _ => None,
                };
                v.into_iter().for_each(|v| *ints.entry(v).or_insert(0) += 1);
            }
            Tok::Text(t) if t.len() <= 64 && !t.is_empty() => {
                *texts.entry(t.clone()).or_insert(0) += 1;
            }
            Tok::Sign(b'[') => {
                // A list of bytes
                let mut list = vec![];
                let mut j = i + 1;
                while let Some(Tok::Int(n)) = toks.get(j) {
                    list.push(*n);
                    if toks.get(j + 1) != Some(&Tok::Sign(b',')) {
                        j += 1;
                        break;
                    }
                    j += 2;
                }
                if toks.get(j) == Some(&Tok::Sign(b']')) && (2..=32).contains(&list.len()) && list.iter().all(|n| *n < 256) {
                    *texts.entry(list.iter().map(|n| *n as u8).collect()).or_insert(0) += 1;
                }
            }
            _ => {}
        }
    }
}

/// Panics if literals are not found where there are some.
pub fn self_test() {
    let source = br##"
        // 77 "no" /* 78
        /* 79 /* 80 */ "no" */
        fn f<'a>(x: &'a str) { let y = 1_234u32 + 0x2Fu8; 'b: loop {} }
        const T: &str = "say \"hi\"\n\u{e9}\x41"; r#"raw "x""#; b"by\0"; '\''; 'q'; b'A';
        [1, 2, 0xff] 3 << 9; 1..5
    "##;
    let (mut ints, mut texts) = (Ints::new(), Texts::new());
    literals(&tokens(source), &mut ints, &mut texts);
    assert_eq!(ints.into_keys().collect::<Vec<_>>(), [1, 2, 3, 5, 9, 47, 65, 255, 1234, 1281, 1536]);
    let mut want: Vec<&[u8]> = vec!["say \"hi\"\n\u{e9}A".as_bytes(), b"raw \"x\"", b"by\0", b"'", b"q", &[1, 2, 255]];
    want.sort();
    assert_eq!(texts.into_keys().collect::<Vec<_>>(), want);
}
