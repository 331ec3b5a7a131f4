//! Helpers shared by the property checks.
pub mod jitter;
pub mod large;
pub mod mem;
pub mod procs;
pub mod reg;
pub mod view;
pub mod refimpl;
pub use engine;
pub use iota_stronghold as sh;
pub use vh;
use sh::{
    procedures::{CompareSecret, ProcedureError},
    Client, Location,
};
use vh::prelude::*;

/// Deterministic pseudo-random bytes (splitmix64); the seed is part of the generated case.
pub fn bytes(len: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        v.extend_from_slice(&z.to_le_bytes());
    }
    v.truncate(len);
    v
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A payload by length and content seed, so that cases stay small and shrink well.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Pay {
    pub len: u32,
    pub s: u16,
}
impl Pay {
    pub fn bytes(&self) -> Vec<u8> {
        match self.s {
            0 => vec![0; self.len as usize],
            1 => vec![0xff; self.len as usize],
            s => bytes(self.len as usize, s as u64),
        }
    }
}

/// Payload lengths: mostly small, with the boundaries that matter for pages, blocks and guards.
pub fn pay() -> BoxedStrategy<Pay> {
    (pay_len(), prop_oneof![1 => 0u16..2, 9 => 2u16..5000]).prop_map(|(len, s)| Pay { len, s }).boxed()
}
pub fn pay_len() -> BoxedStrategy<u32> {
    prop_oneof![
        40 => 0u32..80,
        10 => prop::sample::select(vec![0u32, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        5 => prop::sample::select(vec![4079u32, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193]),
        5 => 80u32..3000,
        1 => prop::sample::select(vec![32_768u32, 65_535, 65_536, 65_537, 70_000, 131_072]),
    ]
    .boxed()
}

pub const NV: u8 = 5;
pub const NR: u8 = 9;

/// Vault paths used by histories: related by prefix, empty, binary, longer than a hash block.
pub fn vault_path(i: u8) -> Vec<u8> {
    match i % NV {
        0 => b"vault".to_vec(),
        1 => b"".to_vec(),
        2 => b"vault1".to_vec(),
        3 => vec![0xff, 0x00, 0x80, 0x01],
        _ => bytes(200, 77),
    }
}
/// A record slot: generic paths and counters.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Loc {
    pub v: u8,
    pub r: u8,
}
impl Loc {
    pub fn get(self) -> Location {
        match self.r % NR {
            6 => Location::counter(vault_path(self.v), 0usize),
            7 => Location::counter(vault_path(self.v), 1usize),
            8 => Location::counter(vault_path(self.v), 11usize),
            _ => Location::generic(vault_path(self.v), self.record_path().unwrap()),
        }
    }
    pub fn record_path(self) -> Option<Vec<u8>> {
        match self.r % NR {
            0 => Some(b"record".to_vec()),
            1 => Some(b"".to_vec()),
            2 => Some(b"record1".to_vec()),
            3 => Some(b"first_record".to_vec()),
            4 => Some(vec![0, 1, 0xfe, 0xff]),
            5 => Some(bytes(150, 78)),
            _ => None,
        }
    }
}
pub fn loc(nv: u8, nr: u8) -> BoxedStrategy<Loc> {
    (0..nv, 0..nr).prop_map(|(v, r)| Loc { v, r }).boxed()
}

/// Some(equal?) when the secret is usable, Err otherwise.
pub fn cmp_secret(c: &Client, l: &Location, expected: &[u8]) -> Result<bool, ProcedureError> {
    c.execute_procedure(CompareSecret { location: l.clone(), expected: expected.to_vec() }).map(|v: Vec<u8>| v == [1])
}

/// Checks that the secret at `l` is usable with exactly this value (`Some`) or unusable and reported absent (`None`).
pub fn check_secret(c: &Client, l: &Location, expected: Option<&[u8]>, what: &str) -> vh::R<()> {
    let ex = c.record_exists(l).map_err(|e| vh::Failure::new("exists-error", format!("{what}: record_exists: {e}")))?;
    match expected {
        Some(v) => {
            ensure!(ex, "missing", "{what}: record_exists({l:?}) is false but a secret was written");
            match cmp_secret(c, l, v) {
                Ok(true) => {}
                Ok(false) => fail!("wrong-value", "{what}: the secret at {l:?} is not the one last written ({} bytes)", v.len()),
                Err(e) => fail!("unreadable", "{what}: the secret at {l:?} is not usable: {e}"),
            }
        }
        None => {
            ensure!(!ex, "phantom", "{what}: record_exists({l:?}) is true but nothing is stored");
            if let Ok(r) = cmp_secret(c, l, b"?") {
                fail!("phantom-value", "{what}: a secret is usable at {l:?} although none is stored (cmp {r})")
            }
        }
    }
    Ok(())
}

/// A panic of the library as a failure of the case.
pub fn np<T>(what: &str, f: impl FnOnce() -> T) -> vh::R<T> {
    vh::no_panic(f).map_err(|e| vh::Failure::new(format!("panic:{what}"), e))
}
