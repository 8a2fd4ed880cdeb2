//! The source of choices a case is generated from.
//!
//! A case is a function of a sequence of bytes ("choices"). In record mode they
//! come from a PRNG and are remembered; in replay mode they come from a given
//! sequence, and are 0 once it is exhausted. Generators map 0 to the simplest
//! alternative, so that a failure is shrunk by shortening the sequence and
//! lowering its bytes.

use crate::dict;
use std::net::IpAddr;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for &p in parts {
        h = Rng::new(h ^ p.wrapping_mul(0xff51_afd7_ed55_8ccd)).next();
    }
    h
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in bytes {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(&[h, bytes.len() as u64])
}

/// What was generated before in the case, to be used again.
#[derive(Default)]
pub struct Pool {
    pub texts: Vec<String>,
    pub tids: Vec<[u8; 12]>,
    pub ips: Vec<IpAddr>,
    pub ports: Vec<u16>,
}

pub struct Src {
    pub pool: Pool,
    data: Vec<u8>,
    pos: usize,
    rng: Option<Rng>,
    word: u64,
    word_len: u32,
}
impl Src {
    pub fn record(seed: u64) -> Self {
        Src {
            pool: Pool::default(),
            data: Vec::with_capacity(256),
            pos: 0,
            rng: Some(Rng::new(seed)),
            word: 0,
            word_len: 0,
        }
    }
    pub fn replay(data: &[u8]) -> Self {
        Src {
            pool: Pool::default(),
            data: data.to_vec(),
            pos: 0,
            rng: None,
            word: 0,
            word_len: 0,
        }
    }
    /// The choices made so far.
    pub fn choices(&self) -> &[u8] {
        &self.data[..self.pos.min(self.data.len())]
    }
    /// Whether there are recorded choices left (always true in record mode).
    pub fn has_more(&self) -> bool {
        self.rng.is_some() || self.pos < self.data.len()
    }
    pub fn u8(&mut self) -> u8 {
        if let Some(rng) = &mut self.rng {
            if self.word_len == 0 {
                self.word = rng.next();
                self.word_len = 8;
            }
            let b = self.word as u8;
            self.word >>= 8;
            self.word_len -= 1;
            self.data.push(b);
            self.pos += 1;
            b
        } else {
            let b = self.data.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            b
        }
    }
    pub fn u16(&mut self) -> u16 {
        u16::from(self.u8()) << 8 | u16::from(self.u8())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from(self.u16()) << 16 | u32::from(self.u16())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from(self.u32()) << 32 | u64::from(self.u32())
    }
    pub fn bool(&mut self) -> bool {
        self.u8() >= 128
    }
    /// True with probability about n/256; false is the simple choice.
    pub fn chance(&mut self, n: u16) -> bool {
        u16::from(self.u8()) >= 256 - n
    }
    /// A number below n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            0
        } else if n <= 256 {
            usize::from(self.u8()) % n
        } else if n <= 65536 {
            usize::from(self.u16()) % n
        } else {
            self.u32() as usize % n
        }
    }
    /// A number in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }
    /// Now and then, a number from the source of the library, or one near it.
    pub fn hint(&mut self) -> Option<u64> {
        let d = dict::get();
        let new = !d.new_ints.is_empty();
        if !self.chance(if new { 24 } else { 5 }) {
            return None;
        }
        let n = if new && self.chance(216) { *self.pick(&d.new_ints) } else { *self.pick(&d.ints) };
        Some(match self.weighted(&[10, 3, 3, 1, 1]) {
            0 => n,
            1 => n.wrapping_add(1),
            2 => n.wrapping_sub(1),
            3 => n.wrapping_mul(2),
            _ => n.wrapping_mul(4),
        })
    }
    /// As `hint`, for numbers that must not be larger than this to be of use. Those that
    /// come from the listed literals are up to 300.
    pub fn hint_upto(&mut self, most: usize) -> Option<usize> {
        let most = if dict::get().new_ints.is_empty() { most.min(300) } else { most };
        let n = self.hint().filter(|n| *n <= most as u64)?;
        // Large ones take their time
        (n <= 2500 || self.chance(24)).then_some(n as usize)
    }
    /// Now and then, a text (or bytes) from the source of the library.
    pub fn text_hint(&mut self) -> Option<&'static [u8]> {
        let d = dict::get();
        let new = !d.new_texts.is_empty();
        if !self.chance(if new { 24 } else { 4 }) {
            return None;
        }
        Some(if new && self.chance(216) { self.pick(&d.new_texts) } else { self.pick(&d.texts) })
    }
    /// n bytes, perhaps with a number or text from the source among them.
    pub fn hinted_bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.bytes(n);
        let x: Vec<u8> = if let Some(h) = self.hint() {
            let b = h.to_be_bytes();
            let skip = match h {
                0..=0xff => 7,
                0x100..=0xffff => 6,
                0x1_0000..=0xffff_ffff => 4,
                _ => 0,
            };
            b[skip..].to_vec()
        } else if let Some(t) = self.text_hint() {
            t.to_vec()
        } else {
            return v;
        };
        if x.len() <= n {
            let at = if self.bool() { 0 } else { self.below(n - x.len() + 1) };
            v[at..at + x.len()].copy_from_slice(&x);
        }
        v
    }
    /// n bytes: taken one by one if few, otherwise expanded from a few choices.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 24 {
            (0..n).map(|_| self.u8()).collect()
        } else {
            let kind = self.u8();
            let seed = self.u32();
            let mut v = vec![0u8; n];
            match kind % 4 {
                0 => v.iter_mut().for_each(|b| *b = seed as u8),
                _ => {
                    let mut rng = Rng::new(u64::from(seed));
                    for c in v.chunks_mut(8) {
                        let w = rng.next().to_le_bytes();
                        c.copy_from_slice(&w[..c.len()]);
                    }
                }
            }
            v
        }
    }
}
