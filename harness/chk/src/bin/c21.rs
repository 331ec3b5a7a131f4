//! C21: key providers.
use chk::{bytes, hex, np, refimpl, sh::*};
use crypto::hashes::{
    blake2b::Blake2b256,
    sha::{Sha256, Sha384, Sha512},
    Digest,
};
use std::{
    panic::AssertUnwindSafe,
    sync::{Arc, Barrier, Mutex},
};
use vh::{ensure, ensure_eq, fail, prelude::*, Facet, Failure, Out, Property};
use zeroize::Zeroize;

/// A passphrase that tells what was left of it when it was dropped.
struct Spy {
    data: Vec<u8>,
    log: Arc<Mutex<Vec<Vec<u8>>>>,
}
impl AsRef<[u8]> for Spy {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl Zeroize for Spy {
    fn zeroize(&mut self) {
        self.data.iter_mut().for_each(|b| *b = 0);
    }
}
impl Drop for Spy {
    fn drop(&mut self) {
        self.log.lock().unwrap().push(self.data.clone());
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Raw,
    Truncated,
    Blake,
    Sha256,
    Sha384,
    Sha512,
    BlakeDigest,
    Argon { salt: u16, salt_len: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pass {
    len: u16,
    seed: u16,
    /// 0 random, 1 zero bytes, 2 ends in zero bytes, 3 one byte repeated, 4 text
    shape: u8,
}
impl Pass {
    fn bytes(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut b = bytes(n, 7000 + self.seed as u64);
        match self.shape % 5 {
            1 => b.fill(0),
            2 => b[n / 2..].fill(0),
            3 => b.fill(self.seed as u8),
            4 => b.iter_mut().for_each(|x| *x = 32 + *x % 95),
            _ => {}
        }
        b
    }
}
fn pass() -> impl Strategy<Value = Pass> {
    (
        prop_oneof![3 => Just(32u16), 3 => 30u16..35, 3 => 0u16..70, 1 => prop_oneof![Just(63u16), Just(64), Just(65), Just(111), Just(112), Just(127), Just(128), Just(129)], 1 => 0u16..2000, 1 => 0u16..=u16::MAX],
        any::<u16>(),
        0u8..5,
    )
        .prop_map(|(len, seed, shape)| Pass { len, seed, shape })
}
fn kind(argon: u32) -> impl Strategy<Value = Kind> {
    prop_oneof![
        4 => Just(Kind::Raw),
        4 => Just(Kind::Truncated),
        4 => Just(Kind::Blake),
        2 => Just(Kind::Sha256),
        1 => Just(Kind::Sha384),
        1 => Just(Kind::Sha512),
        2 => Just(Kind::BlakeDigest),
        argon => (any::<u16>(), prop_oneof![3 => 8u8..40, 1 => any::<u8>(), 1 => 0u8..9]).prop_map(|(salt, salt_len)| Kind::Argon { salt, salt_len }),
    ]
}
impl Kind {
    /// The key of the documented construction; none if the input is to be refused
    fn key(self, p: &[u8], prefix: &[u8]) -> Option<Vec<u8>> {
        let all = [prefix, p].concat();
        match self {
            Kind::Raw => (p.len() == 32).then(|| p.to_vec()),
            Kind::Truncated => {
                let mut k = p[..p.len().min(32)].to_vec();
                k.resize(32, 0);
                Some(k)
            }
            Kind::Blake => Some(refimpl::blake2b(32, p)),
            Kind::BlakeDigest => Some(refimpl::blake2b(32, &all)),
            Kind::Sha256 => Some(refimpl::H::S256.hash(&[&all])),
            Kind::Sha384 | Kind::Sha512 => None,
            Kind::Argon { salt, salt_len } => (salt_len >= 8).then(|| refimpl::argon2i(p, &bytes(salt_len as usize, salt as u64), 3, 4096)),
        }
    }
    fn make(self, p: Vec<u8>, prefix: &[u8], log: &Arc<Mutex<Vec<Vec<u8>>>>) -> Result<KeyProvider, String> {
        let e = |e: ClientError| format!("{e:?}");
        let spy = |data: Vec<u8>| Spy { data, log: log.clone() };
        fn dig<D: Digest>(prefix: &[u8]) -> D {
            let mut d = D::new();
            d.update(prefix);
            d
        }
        match self {
            Kind::Raw => KeyProvider::try_from(p).map_err(|e| format!("{e:?}")),
            Kind::Truncated => KeyProvider::with_passphrase_truncated(spy(p)).map_err(e),
            Kind::Blake => KeyProvider::with_passphrase_hashed_blake2b(spy(p)).map_err(e),
            Kind::BlakeDigest => KeyProvider::with_passphrase_hashed(spy(p), dig::<Blake2b256>(prefix)).map_err(e),
            Kind::Sha256 => KeyProvider::with_passphrase_hashed(spy(p), dig::<Sha256>(prefix)).map_err(e),
            Kind::Sha384 => KeyProvider::with_passphrase_hashed(spy(p), dig::<Sha384>(prefix)).map_err(e),
            Kind::Sha512 => KeyProvider::with_passphrase_hashed(spy(p), dig::<Sha512>(prefix)).map_err(e),
            Kind::Argon { salt, salt_len } => KeyProvider::with_passphrase_hashed_argon2(spy(p), spy(bytes(salt_len as usize, salt as u64))).map_err(e),
        }
    }
    fn name(self) -> &'static str {
        match self {
            Kind::Raw => "raw",
            Kind::Truncated => "truncated",
            Kind::Blake => "blake2b",
            Kind::Argon { .. } => "argon2",
            _ => "digest",
        }
    }
}
fn unlock(k: &KeyProvider) -> vh::R<Vec<u8>> {
    let b = np("try_unlock", || k.try_unlock())?.map_err(|e| Failure::new("unlock", format!("{e:?}")))?;
    let v = b.borrow().to_vec();
    Ok(v)
}

// ---------------------------------------------------------------------------------------------
// derivation

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Derive {
    kind: Kind,
    pass: Pass,
    prefix: u8,
    unlocks: u8,
    other_process: bool,
}
fn derive(_: Tier) -> BoxedStrategy<Derive> {
    (kind(1), pass(), prop_oneof![Just(0u8), any::<u8>()], 1u8..6, prop::bool::weighted(0.1)).prop_map(|(kind, pass, prefix, unlocks, other_process)| Derive { kind, pass, prefix, unlocks, other_process }).boxed()
}
fn run_derive(c: &Derive) -> vh::R<Out> {
    let p = c.pass.bytes();
    let prefix = bytes(c.prefix as usize, 3);
    let want = c.kind.key(&p, &prefix);
    let log = Arc::new(Mutex::new(vec![]));
    let got = np("constructor", || c.kind.make(p.clone(), &prefix, &log))?;
    // whatever happens to the key, the passphrase and the salt do not stay in memory
    let left = std::mem::take(&mut *log.lock().unwrap());
    let inputs = match c.kind {
        Kind::Raw => 0,
        Kind::Argon { .. } => 2,
        _ => 1,
    };
    ensure_eq!(left.len(), inputs, "wiped", "inputs dropped by the constructor");
    for l in &left {
        ensure!(l.iter().all(|b| *b == 0), "wiped", "an input of {} bytes was left as {} when the constructor ended ({})", l.len(), hex(l), if got.is_ok() { "key made" } else { "refused" });
    }
    let (want, got) = match (want, got) {
        (Some(w), Ok(g)) => (w, g),
        (Some(_), Err(e)) => fail!("refused", "{} refuses {} bytes: {e}", c.kind.name(), p.len()),
        (None, Ok(g)) => fail!("accepted", "{} accepts {} bytes and yields {}", c.kind.name(), p.len(), hex(&unlock(&g)?)),
        (None, Err(e)) => {
            let expect = match c.kind {
                Kind::Raw => "NCSizeNotAllowed",
                Kind::Argon { .. } => "Inner",
                _ => "IllegalKeySize",
            };
            ensure!(e.starts_with(expect), "error", "refused with {e}, expected {expect}");
            return Ok(Out::new(true).tag("refused").tag(c.kind.name()));
        }
    };
    for i in 0..c.unlocks {
        let k = unlock(&got)?;
        ensure!(k == want, "key", "{} of {} bytes yields {} at use {i}, expected {}", c.kind.name(), p.len(), hex(&k), hex(&want));
    }
    let text = format!("{got:?}");
    ensure!(!text.contains(&hex(&want)), "debug", "the key is printed");
    if c.other_process {
        let (kind, p2, pre) = (c.kind, p.clone(), prefix.clone());
        let r = vh::probe(move || {
            let log = Arc::new(Mutex::new(vec![]));
            let k = kind.make(p2, &pre, &log).expect("key provider");
            let b = k.try_unlock().expect("unlock");
            let v = b.borrow().to_vec();
            v
        });
        match r {
            vh::ProbeEnd::Exit(k) => ensure!(k == want, "key", "another process derives {}", hex(&k)),
            vh::ProbeEnd::Signal(s) => fail!("crash", "{}", vh::signal_name(s)),
            vh::ProbeEnd::Panic(e) => fail!("panic", "{e}"),
        }
    }
    Ok(Out::new(true).tag(c.kind.name()).tag_if(c.other_process, "other process"))
}

// ---------------------------------------------------------------------------------------------
// two providers and a snapshot

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: (Kind, Pass),
    b: (Kind, Pass),
    /// 0 as generated, 1 same input, 2 b = raw key of a, 3 b = a with zero bytes added, 4 b = first 32 bytes of a, 5 one bit of a changed
    relation: u8,
    bit: u16,
}
fn pair(_: Tier) -> BoxedStrategy<Pair> {
    (kind(0), pass(), kind(0), pass(), 0u8..6, any::<u16>()).prop_map(|(k, p, k2, p2, relation, bit)| Pair { a: (k, p), b: (k2, p2), relation, bit }).boxed()
}
fn clamp(k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    k[0] &= 248;
    k[31] = k[31] & 127 | 64;
    k
}
fn run_pair(c: &Pair) -> vh::R<Out> {
    let a = c.a.1.bytes();
    let (ka, Some(key_a)) = (c.a.0, c.a.0.key(&a, b"")) else { return Ok(Out::new(false)) };
    let (kb, b) = match c.relation {
        0 => (c.b.0, c.b.1.bytes()),
        1 => (ka, a.clone()),
        2 => (Kind::Raw, key_a.clone()),
        3 => (ka, [&a[..], &[0]].concat()),
        4 => (Kind::Truncated, a[..a.len().min(32)].to_vec()),
        _ => {
            let mut b = a.clone();
            if !b.is_empty() {
                let n = c.bit as usize % (8 * b.len());
                b[n / 8] ^= 1 << (n % 8);
            }
            (ka, b)
        }
    };
    let Some(key_b) = kb.key(&b, b"") else { return Ok(Out::new(false)) };
    let log = Arc::new(Mutex::new(vec![]));
    let mk = |k: Kind, p: &[u8]| k.make(p.to_vec(), b"", &log).map_err(|e| Failure::new("refused", e));
    let dir = vh::TempDir::new();
    let path = SnapshotPath::from_path(dir.path().join("s"));
    let st = Stronghold::default();
    let cl = st.create_client(b"c").map_err(|e| Failure::new("setup", e.to_string()))?;
    cl.store().insert(b"k".to_vec(), b"v".to_vec(), None).map_err(|e| Failure::new("setup", e.to_string()))?;
    let p1 = mk(ka, &a)?;
    for _ in 0..2 {
        np("commit", || st.commit_with_keyprovider(&path, &p1))?.map_err(|e| Failure::new("commit", e.to_string()))?;
    }
    let p2 = mk(kb, &b)?;
    let r = np("load", || Stronghold::default().load_client_from_snapshot(b"c", &p2, &path).and_then(|c| c.store().get(b"k")).map_err(|e| e.to_string()))?;
    if key_a == key_b {
        ensure_eq!(r, Ok(Some(b"v".to_vec())), "open", "a snapshot of {} read with an equal key of {}", ka.name(), kb.name());
    } else if clamp(&key_a) != clamp(&key_b) {
        ensure!(r.is_err(), "foreign", "a snapshot of {} is opened by another key of {}", ka.name(), kb.name());
    }
    // the first provider is as good as before, and so is another one made from the same input
    for p in [&p1, &mk(ka, &a)?] {
        let r = np("load", || Stronghold::default().load_client_from_snapshot(b"c", p, &path).and_then(|c| c.store().get(b"k")).map_err(|e| e.to_string()))?;
        ensure_eq!(r, Ok(Some(b"v".to_vec())), "open", "a snapshot read with the provider it was written with ({})", ka.name());
    }
    Ok(Out::new(true).tag(if key_a == key_b { "same key" } else { "other key" }).tag(format!("relation {}", c.relation)))
}

// ---------------------------------------------------------------------------------------------
// one provider used by several threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Thr {
    threads: u8,
    unlocks: u16,
    jitter: u8,
}
fn thr(_: Tier) -> BoxedStrategy<Thr> {
    (2u8..7, 1u16..100, prop_oneof![Just(0u8), 2u8..40]).prop_map(|(threads, unlocks, jitter)| Thr { threads, unlocks, jitter }).boxed()
}
fn run_thr(c: &Thr) -> vh::R<Out> {
    let key = bytes(32, 99);
    let k = KeyProvider::try_from(key.clone()).map_err(|e| Failure::new("refused", format!("{e:?}")))?;
    let bar = Barrier::new(c.threads as usize);
    let r: Vec<Result<vh::R<()>, String>> = chk::jitter::jitter(c.jitter as u32, c.unlocks as u64, |j| {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..c.threads)
                .map(|_| {
                    let (k, key, bar) = (&k, &key, &bar);
                    s.spawn(move || {
                        let _part = j.join();
                        vh::no_panic(AssertUnwindSafe(|| {
                            bar.wait();
                            for i in 0..c.unlocks {
                                let got = unlock(k)?;
                                ensure!(got == *key, "key", "use {i} yields {}", hex(&got));
                            }
                            Ok(())
                        }))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread ended".into()))).collect()
        })
    });
    for r in r {
        match r {
            Ok(r) => r?,
            Err(e) => fail!("panic", "{e}"),
        }
    }
    Ok(Out::new(true).tag(format!("{} threads", c.threads)))
}

fn main() {
    if let Err(e) = refimpl::selftest() {
        eprintln!("{e}");
        std::process::exit(2);
    }
    vh::main(vec![Property {
        id: "C21",
        level: "exploration",
        assumptions: &["keys are compared with own implementations of BLAKE2b, SHA-256 and Argon2i (default parameters: 4 MiB, three passes, one lane, 32 bytes)",
            "passphrases are handed over by value; copies the caller keeps and temporaries of the digest are not judged",
            "pairs of keys that differ only in the bits X25519 clamps are left to the known finding of C04"],
        facets: vec![
            Facet { name: "derive", rule: "a constructor and an input of up to 2000 bytes: refusal as documented, key compared with an own implementation at every use and in another process, inputs wiped; non-trivial = always", cases: (20000, 600000), batch: 100, racy: false, strategy: derive, run: run_derive }.boxed(),
            Facet { name: "snapshots", rule: "a snapshot written with one provider and opened with another one built from a related input; non-trivial = both inputs are accepted", cases: (6000, 200000), batch: 50, racy: false, strategy: pair, run: run_pair }.boxed(),
            Facet { name: "threads", rule: "several threads unlocking one provider; non-trivial = always", cases: (300, 20000), batch: 5, racy: true, strategy: thr, run: run_thr }.boxed(),
        ],
        findings: vec![],
    }])
}
