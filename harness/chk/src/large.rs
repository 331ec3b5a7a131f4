//! Large states: many vaults, many records, long secrets. The contents follow from a seed, so that cases stay small.
use crate::{bytes, sh::Location};
use vh::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    /// vaults and records per vault that are used
    pub nv: u16,
    pub nr: u16,
    /// number of operations
    pub n: u16,
    /// lengths of the secrets: 0 small, 1 up to some pages, 2 now and then very long
    pub len: u8,
    pub seed: u32,
}

pub fn many(max: u16) -> BoxedStrategy<Many> {
    let shape = prop_oneof![
        2 => (1u16..4, 200u16..700),
        2 => (100u16..400, 1u16..4),
        1 => (1u16..30, 1u16..60),
    ];
    (shape, max / 8..max, 0u8..3, any::<u32>()).prop_map(|((nv, nr), n, len, seed)| Many { nv, nr, n, len, seed }).boxed()
}

/// splitmix64
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

impl Many {
    pub fn rng(&self) -> Rng {
        Rng(self.seed as u64)
    }
    pub fn vault(v: u16) -> Vec<u8> {
        format!("vault {v}").into_bytes()
    }
    /// every third record is a counter
    pub fn location(v: u16, r: u16) -> Location {
        match r % 3 {
            2 => Location::counter(Self::vault(v), r as usize),
            _ => Location::generic(Self::vault(v), Self::record(r)),
        }
    }
    pub fn record(r: u16) -> Vec<u8> {
        format!("record {r}").into_bytes()
    }
    pub fn pick(&self, g: &mut Rng) -> (u16, u16) {
        (g.below(self.nv as u64) as u16, g.below(self.nr as u64) as u16)
    }
    pub fn payload(&self, g: &mut Rng) -> Vec<u8> {
        let len = match (self.len, g.below(100)) {
            (1, 0..=9) => 64 + g.below(9000),
            (2, 0) => *[65_535, 65_536, 65_537, 131_072, 100_000, 262_145].get(g.below(6) as usize).unwrap(),
            _ => g.below(64),
        } as usize;
        match g.below(8) {
            0 => vec![g.next() as u8; len],
            _ => bytes(len, g.next()),
        }
    }
}
