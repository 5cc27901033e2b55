//! Runtime of the conformance harness: host values as sequences of scalar
//! components, seeded value generation, and the recorders whose output the
//! specification judges. Uses crevice's public API only.
#![allow(clippy::all)]

use std::fmt::Write as _;

pub mod codec;
pub mod hosts;
pub mod shape;
#[macro_use]
pub mod wide;
#[cfg(feature = "std")]
#[macro_use]
pub mod writer;
#[cfg(feature = "std")]
#[macro_use]
pub mod bulk;

pub use codec::*;
pub use hosts::*;
pub use std::vec::Vec;

pub fn no_such_type() -> ! {
    panic!("harness: no such type")
}

/// The bytes of one scalar component (4, or 8 for doubles).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Leaf {
    pub n: usize,
    pub b: [u8; 8],
}

impl Leaf {
    pub fn four(b: [u8; 4]) -> Leaf {
        Leaf { n: 4, b: [b[0], b[1], b[2], b[3], 0, 0, 0, 0] }
    }
    pub fn eight(b: [u8; 8]) -> Leaf {
        Leaf { n: 8, b }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn get4(&self) -> [u8; 4] {
        assert_eq!(self.n, 4);
        [self.b[0], self.b[1], self.b[2], self.b[3]]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Comp {
    F,
    D,
    I,
    U,
    B,
}

/// A Rust value seen as its scalar components, in declaration order, matrices
/// column by column.
pub trait Host: Sized {
    fn comps(out: &mut Vec<Comp>);
    fn put(&self, out: &mut Vec<Leaf>);
    fn take(src: &mut &[Leaf]) -> Self;
}

pub fn comps_of<T: Host>() -> Vec<Comp> {
    let mut v = Vec::new();
    T::comps(&mut v);
    v
}
pub fn leaves_of<T: Host>(x: &T) -> Vec<Leaf> {
    let mut v = Vec::new();
    x.put(&mut v);
    v
}
pub fn value_of<T: Host>(leaves: &[Leaf]) -> T {
    let mut s = leaves;
    let x = T::take(&mut s);
    assert!(s.is_empty(), "harness: leaves left over");
    x
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Rng {
        let mut r = Rng(seed ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

const SPECIAL_F32: [u32; 10] = [
    0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 0xffff_ffff, 0x7f80_0001, 1, 0x7f7f_ffff, 0x3f80_0000,
];
const SPECIAL_F64: [u64; 10] = [
    0, 1 << 63, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0001, u64::MAX, 0x7ff0_0000_0000_0001, 1,
    0x7fef_ffff_ffff_ffff, 0x3ff0_0000_0000_0000,
];
const SPECIAL_INT: [u32; 7] = [0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0102_0304, 0x8080_8080];
/// Words a shader may leave in a bool.
pub const BOOL_WORDS: [u32; 14] = [
    0, 1, 2, 0x80, 0xff, 0x100, 0x8000, 0x1_0000, 0x0100_0000, 0x8000_0000, 0xffff_ffff, 0x7fff_fffe, 0xffff_fffe, 0xffff_ff00,
];

/// Components of a value. `pat` 0: every byte of every component distinct
/// within a window and non-zero; 1: special values; 2 and up: random bits, few
/// different values, all the same, zero but for one, or zero.
pub fn gen_leaves(comps: &[Comp], pat: usize, rng: &mut Rng) -> Vec<Leaf> {
    if pat >= 2 && rng.below(2) == 0 {
        return plain_leaves(comps, rng.below(4), rng);
    }
    let mut out = Vec::with_capacity(comps.len());
    let mut tag = 1 + rng.below(90) as u32;
    for (k, c) in comps.iter().enumerate() {
        let mut next_tag = || {
            let t = tag as u8;
            tag = if tag >= 125 { 1 } else { tag + 1 };
            t
        };
        let leaf = match (*c, pat) {
            (Comp::B, p) => {
                // bit p of the component's index (from 1), inverted for odd p, so that
                // over the patterns every component takes both values and neighbours differ
                let bit = ((k as u64 + 1) >> (p % 7)) & 1;
                let bit = if p % 2 == 1 { bit ^ 1 } else { bit };
                let bit = if p >= 7 { rng.next() & 1 } else { bit };
                Leaf::four((bit as u32).to_ne_bytes())
            }
            (Comp::D, 0) => Leaf::eight([
                next_tag(), next_tag(), next_tag(), next_tag(), next_tag(), next_tag(), next_tag(), next_tag(),
            ]),
            (_, 0) => Leaf::four([next_tag(), next_tag(), next_tag(), next_tag()]),
            (Comp::D, 1) => Leaf::eight(SPECIAL_F64[rng.below(10)].to_ne_bytes()),
            (Comp::F, 1) => Leaf::four(SPECIAL_F32[rng.below(10)].to_ne_bytes()),
            (_, 1) => Leaf::four(SPECIAL_INT[rng.below(7)].to_ne_bytes()),
            (Comp::D, _) => Leaf::eight(rng.next().to_ne_bytes()),
            (_, _) => Leaf::four((rng.next() as u32).to_ne_bytes()),
        };
        out.push(leaf);
    }
    out
}

/// Values with structure: 0 few-valued, 1 all the same, 2 zero but for one component,
/// 3 zero.
fn plain_leaves(comps: &[Comp], kind: usize, rng: &mut Rng) -> Vec<Leaf> {
    let (i, j, k) = (rng.below(10), rng.below(10), rng.below(comps.len().max(1)));
    let make = |c: Comp, n: usize| match c {
        Comp::B => Leaf::four(((n != 0) as u32).to_ne_bytes()),
        Comp::D => Leaf::eight(SPECIAL_F64[n].to_ne_bytes()),
        Comp::F => Leaf::four(SPECIAL_F32[n].to_ne_bytes()),
        _ => Leaf::four(SPECIAL_INT[n % 7].to_ne_bytes()),
    };
    comps
        .iter()
        .enumerate()
        .map(|(at, c)| {
            let n = match kind {
                0 if rng.below(2) == 0 => i,
                0 => j,
                1 => i,
                2 if at == k => 1 + i % 9,
                _ => 0,
            };
            make(*c, n)
        })
        .collect()
}

pub fn gen_value<T: Host>(pat: usize, rng: &mut Rng) -> T {
    value_of(&gen_leaves(&comps_of::<T>(), pat, rng))
}

/// Leaves garbage where a following call's frame will be.
#[inline(never)]
pub fn dirty_stack(b: u8) {
    let mut a = [b; 24 * 1024];
    std::hint::black_box(&mut a);
}

thread_local! {
    /// Set while code under test runs: its panics are data.
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Panics outside code under test are the harness's own, and are marked as such.
pub fn hush() {
    std::panic::set_hook(Box::new(|i| {
        if !QUIET.with(|q| q.get()) {
            eprintln!("harness panic: {}", i);
        }
    }));
}

// ---------------------------------------------------------------- JSON out

/// Numbers the model checker can hold; what is cut off is wrong anyway.
pub fn clip(n: usize) -> i64 {
    n.min(1_000_000_000) as i64
}

pub fn j_bytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let _ = write!(out, "{}", x);
    }
    out.push(']');
}
pub fn j_leaves(out: &mut String, v: &[Leaf]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        j_bytes(out, x.bytes());
    }
    out.push(']');
}
pub fn j_str(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || !c.is_ascii() => {
                let _ = write!(out, "\\u{:04x}", c as u32 & 0xffff);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

/// Where sessions go: one JSON object per line on stdout, flushed at exit.
pub struct Log {
    pub out: std::io::BufWriter<std::io::Stdout>,
    pub seed: u64,
    pub vectors: usize,
    pub gpu: usize,
}
impl Log {
    pub fn new() -> Log {
        Log {
            out: std::io::BufWriter::new(std::io::stdout()),
            seed: env_u64("VERIF_SEED", 1),
            vectors: env_u64("H_VECTORS", 3) as usize,
            gpu: env_u64("H_GPU", 2) as usize,
        }
    }
    pub fn line(&mut self, s: &str) {
        use std::io::Write;
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
}
impl Drop for Log {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = self.out.flush();
    }
}

/// A type by another way.
pub trait Same {
    type It;
}
impl<T> Same for T {
    type It = T;
}
#[macro_export]
macro_rules! same {
    ($t:ty) => {
        $t
    };
}
