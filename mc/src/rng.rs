//! Random sources that the harness decides completely.
use crate::toy::FrB;
use ark_std::rand::{Error, RngCore};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A random source in which every draw is one choice out of `p`; all choice sequences are enumerated
/// by depth-first search (`next` moves to the next sequence).
#[derive(Clone, Debug)]
pub struct Tree {
    pub p: u8,
    pub ch: Vec<u8>,
    pub pos: usize,
    /// number of leading choices that `next` must not change
    pub fixed: usize,
    /// the longest branch allowed; beyond it draws return 0 and `over` is set
    pub max: usize,
    pub over: bool,
}
impl Tree {
    pub fn new(p: u64) -> Self {
        Tree { p: p as u8, ch: vec![], pos: 0, fixed: 0, max: 40, over: false }
    }
    pub fn with_prefix(p: u64, prefix: &[u8]) -> Self {
        Tree { ch: prefix.to_vec(), fixed: prefix.len(), ..Tree::new(p) }
    }
    fn choose(&mut self) -> u8 {
        if self.pos == self.ch.len() {
            if self.pos >= self.max {
                self.over = true;
                return 0;
            }
            self.ch.push(0);
        }
        let c = self.ch[self.pos];
        self.pos += 1;
        c
    }
    pub fn rewind(&mut self) {
        self.pos = 0;
        self.over = false;
    }
    /// Next choice sequence; false when all have been visited.
    pub fn next(&mut self) -> bool {
        self.ch.truncate(self.pos.max(self.fixed));
        self.rewind();
        while self.ch.len() > self.fixed {
            let l = self.ch.last_mut().unwrap();
            if *l + 1 < self.p {
                *l += 1;
                return true;
            }
            self.ch.pop();
        }
        false
    }
    /// Number of draws made in this run.
    pub fn drawn(&self) -> usize {
        self.pos
    }
}
impl RngCore for Tree {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let c = self.choose() as u64;
        (mix(c) << 8) | c
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for ch in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&b[..ch.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A fixed stream of 64-bit words, continued by a counter-based generator.
#[derive(Clone, Debug)]
pub struct Stream {
    pub w: Vec<u64>,
    pub pos: usize,
    pub seed: u64,
    /// mask for the generated words
    pub mask: u64,
}
impl Stream {
    pub fn seeded(seed: u64) -> Self {
        Stream { w: vec![], pos: 0, seed, mask: u64::MAX }
    }
    /// Words that make `Fr::rand` of BLS12-381 return the given scalars.
    pub fn scalars(s: &[FrB], seed: u64) -> Self {
        Stream {
            w: s.iter().flat_map(|x| x.0 .0).collect(),
            pos: 0,
            seed,
            mask: u64::MAX >> 2,
        }
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        rayon_core::mc::point();
        let i = self.pos;
        self.pos += 1;
        self.w
            .get(i)
            .copied()
            .unwrap_or_else(|| mix(self.seed.wrapping_mul(0x1_0000_0001).wrapping_add(i as u64)) & self.mask)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for ch in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&b[..ch.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Either source.
#[derive(Clone, Debug)]
pub enum Rn {
    S(Stream),
    T(Tree),
}
impl RngCore for Rn {
    fn next_u32(&mut self) -> u32 {
        match self {
            Rn::S(r) => r.next_u32(),
            Rn::T(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            Rn::S(r) => r.next_u64(),
            Rn::T(r) => r.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match self {
            Rn::S(r) => r.fill_bytes(d),
            Rn::T(r) => r.fill_bytes(d),
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
