//! C04: damaged, foreign or wrong-key snapshots are rejected cleanly.
use chk::{engine::snapshot as snap, reg::*, sh::*, *};
use std::collections::BTreeMap;
use vh::prelude::*;

/// A change of the bytes of a valid file `a`, given another valid file `b`.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    None,
    Flip(u32, u8),
    Flip2(u32, u8, u32, u8),
    Set(u32, u8),
    Truncate(u32),
    Short(u8),
    Extend(Vec<u8>),
    Insert(u32, u8),
    Delete(u32, u8),
    Swap(u32, u32),
    /// bytes from..to from the other file
    Splice(u32, u32),
    /// a region (header, ephemeral key, tag, ciphertext) of the other file
    Region(u8),
    Empty,
    Random(u16, u16),
    /// a valid header, then random bytes
    Headed(u16, u16),
    /// a low-order ephemeral key
    LowOrder(u8),
    Version(u8, u8),
    Zero(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum KeyMut {
    Same,
    Bit(u8),
    Random(u16),
    Zero,
    Reverse,
    Ones,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum AdMut {
    Same,
    Flip(u32),
    /// a bit of the last byte, at a multiple of 1024 (or one before it), one behind the middle
    End(u8),
    Page(u8, bool),
    Half,
    Swap(u32),
    Drop,
    Pop,
    Push(u8),
    Random(Pay),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Try {
    m: Mut,
    k: KeyMut,
    a: AdMut,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    plain: Pay,
    /// repeat the plaintext (makes it compressible)
    times: u8,
    key: u16,
    ad: Pay,
    /// the other file: same key, same associated data, same plaintext?
    other: (bool, bool, bool),
    inner: bool,
    tries: Vec<Try>,
}

fn mutation() -> BoxedStrategy<Mut> {
    let p = any::<u32>;
    // positions inside the header, ephemeral key and tag are as likely as those in the ciphertext
    let pos = || prop_oneof![2 => 0u32..7, 3 => 7u32..55, 1 => Just(38u32), 3 => p()];
    let bit = 0u8..8;
    prop_oneof![
        2 => Just(Mut::None),
        8 => (pos(), bit.clone()).prop_map(|(a, b)| Mut::Flip(a, b)),
        2 => (pos(), bit.clone(), pos(), bit).prop_map(|(a, b, c, d)| Mut::Flip2(a, b, c, d)),
        2 => (pos(), any::<u8>()).prop_map(|(a, b)| Mut::Set(a, b)),
        3 => p().prop_map(Mut::Truncate),
        2 => (0u8..60).prop_map(Mut::Short),
        2 => prop::collection::vec(any::<u8>(), 1..40).prop_map(Mut::Extend),
        1 => (pos(), any::<u8>()).prop_map(|(a, b)| Mut::Insert(a, b)),
        1 => (pos(), 1u8..20).prop_map(|(a, b)| Mut::Delete(a, b)),
        1 => (pos(), pos()).prop_map(|(a, b)| Mut::Swap(a, b)),
        3 => (pos(), p()).prop_map(|(a, b)| Mut::Splice(a, b)),
        3 => (0u8..4).prop_map(Mut::Region),
        1 => Just(Mut::Empty),
        1 => (any::<u16>(), 0u16..300).prop_map(|(a, b)| Mut::Random(a, b)),
        2 => (any::<u16>(), 0u16..300).prop_map(|(a, b)| Mut::Headed(a, b)),
        1 => (0u8..8).prop_map(Mut::LowOrder),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::Version(a, b)),
        1 => (0u32..100, 1u32..80).prop_map(|(a, b)| Mut::Zero(a, b)),
    ]
    .boxed()
}
impl Mut {
    fn apply(&self, a: &[u8], b: &[u8], head: usize) -> Vec<u8> {
        let mut v = a.to_vec();
        let n = v.len().max(1);
        let at = |p: u32| p as usize % n;
        match self {
            Mut::None => {}
            Mut::Flip(p, b) => v[at(*p)] ^= 1 << b,
            Mut::Flip2(p, b, q, c) => {
                v[at(*p)] ^= 1 << b;
                v[at(*q)] ^= 1 << c;
            }
            Mut::Set(p, b) => v[at(*p)] = *b,
            Mut::Truncate(p) => v.truncate(at(*p)),
            Mut::Short(k) => v.truncate(*k as usize),
            Mut::Extend(x) => v.extend(x),
            Mut::Insert(p, b) => v.insert(at(*p), *b),
            Mut::Delete(p, k) => {
                let p = at(*p);
                v.drain(p..(p + *k as usize).min(n));
            }
            Mut::Swap(p, q) => v.swap(at(*p), at(*q)),
            Mut::Splice(p, q) => {
                let (p, q) = (at(*p).min(at(*q)), at(*p).max(at(*q)));
                for i in p..q.min(b.len()) {
                    v[i] = b[i];
                }
            }
            Mut::Region(r) => {
                let cuts = [0, head, head + 32, head + 48, usize::MAX];
                let (p, q) = (cuts[*r as usize], cuts[*r as usize + 1]);
                let part = b[p.min(b.len())..q.min(b.len())].to_vec();
                v.splice(p.min(n)..q.min(n), part);
            }
            Mut::Empty => v.clear(),
            Mut::Random(s, l) => v = bytes(*l as usize, *s as u64),
            Mut::Headed(s, l) => {
                v.truncate(head);
                v.extend(bytes(*l as usize, *s as u64));
            }
            Mut::LowOrder(k) => {
                let mut pk = [0u8; 32];
                match k {
                    0 => {}
                    1 => pk[0] = 1,
                    2 | 3 | 4 => {
                        pk = [0xff; 32];
                        pk[31] = 0x7f;
                        pk[0] = 0xeb + k; // p, p + 1, p + 2
                    }
                    5 => pk.copy_from_slice(&unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800")),
                    6 => pk.copy_from_slice(&unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157")),
                    _ => pk[31] = 0x80,
                }
                if v.len() >= head + 32 {
                    v[head..head + 32].copy_from_slice(&pk);
                }
            }
            Mut::Version(a, b) => {
                if head == 7 && v.len() >= 7 {
                    v[5] = *a;
                    v[6] = *b;
                }
            }
            Mut::Zero(p, l) => {
                for x in v.iter_mut().skip(*p as usize).take(*l as usize) {
                    *x = 0
                }
            }
        }
        v
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
impl KeyMut {
    fn apply(&self, k: [u8; 32]) -> [u8; 32] {
        let mut r = k;
        match self {
            KeyMut::Same => {}
            KeyMut::Bit(b) => r[*b as usize / 8] ^= 1 << (b % 8),
            KeyMut::Random(s) => r.copy_from_slice(&bytes(32, 1 << 20 | *s as u64)),
            KeyMut::Zero => r = [0; 32],
            KeyMut::Reverse => r.reverse(),
            KeyMut::Ones => r = [0xff; 32],
        }
        r
    }
}
impl AdMut {
    fn apply(&self, a: &[u8]) -> Vec<u8> {
        let mut r = a.to_vec();
        match self {
            AdMut::Same => {}
            AdMut::Flip(p) => {
                if !r.is_empty() {
                    let n = r.len();
                    r[*p as usize / 8 % n] ^= 1 << (p % 8);
                }
            }
            AdMut::End(b) => {
                if let Some(l) = r.last_mut() {
                    *l ^= 1 << (b % 8)
                }
            }
            AdMut::Page(k, before) => {
                let i = *k as usize * 1024;
                if let Some(x) = r.get_mut(if *before { i.saturating_sub(1) } else { i }) {
                    *x ^= 0x10
                }
            }
            AdMut::Half => {
                let n = r.len() / 2;
                r[n..].iter_mut().for_each(|x| *x = !*x)
            }
            AdMut::Swap(p) => {
                if r.len() > 1 {
                    let n = r.len() - 1;
                    r.swap(*p as usize % n, *p as usize % n + 1)
                }
            }
            AdMut::Drop => r.clear(),
            AdMut::Pop => {
                r.pop();
            }
            AdMut::Push(b) => r.push(*b),
            AdMut::Random(p) => r = p.bytes(),
        }
        r
    }
}
/// X25519 secret keys are clamped: these bits of a key have no influence (known finding `key-clamp`).
fn clamp(mut k: [u8; 32]) -> [u8; 32] {
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}

fn attempt() -> BoxedStrategy<Try> {
    let km = || {
        prop_oneof![
            6 => any::<u8>().prop_map(KeyMut::Bit),
            2 => any::<u16>().prop_map(KeyMut::Random),
            1 => Just(KeyMut::Zero),
            1 => Just(KeyMut::Reverse),
            1 => Just(KeyMut::Ones),
        ]
    };
    let am = || {
        prop_oneof![
            3 => any::<u32>().prop_map(AdMut::Flip),
            2 => any::<u8>().prop_map(AdMut::End),
            1 => (0u8..70, any::<bool>()).prop_map(|(k, b)| AdMut::Page(k, b)),
            1 => Just(AdMut::Half),
            1 => any::<u32>().prop_map(AdMut::Swap),
            2 => Just(AdMut::Drop),
            2 => Just(AdMut::Pop),
            2 => prop_oneof![Just(0u8), any::<u8>()].prop_map(AdMut::Push),
            1 => pay().prop_map(AdMut::Random),
        ]
    };
    prop_oneof![
        8 => mutation().prop_map(|m| Try { m, k: KeyMut::Same, a: AdMut::Same }),
        2 => km().prop_map(|k| Try { m: Mut::None, k, a: AdMut::Same }),
        2 => am().prop_map(|a| Try { m: Mut::None, k: KeyMut::Same, a }),
        1 => (mutation(), km(), am()).prop_map(|(m, k, a)| Try { m, k, a }),
    ]
    .boxed()
}
fn strategy(_: Tier) -> BoxedStrategy<Case> {
    let plain = prop_oneof![4 => pay(), 1 => (0u32..5, 0u16..5000).prop_map(|(len, s)| Pay { len, s })];
    let ad = prop_oneof![2 => Just(Pay { len: 0, s: 0 }), 3 => (1u32..40, 0u16..5000).prop_map(|(len, s)| Pay { len, s }), 1 => (prop_oneof![2 => 40u32..300, 2 => 300u32..10000, 1 => 10000u32..80000], 0u16..5000).prop_map(|(len, s)| Pay { len, s })];
    (plain, prop_oneof![3 => Just(1u8), 1 => 2u8..20], any::<u16>(), ad, any::<(bool, bool, bool)>(), any::<bool>(), prop::collection::vec(attempt(), 1..7))
        .prop_map(|(plain, times, key, ad, other, inner, tries)| Case { plain, times, key, ad, other, inner, tries })
        .boxed()
}

fn key(s: u16) -> [u8; 32] {
    match s {
        0 => [0; 32],
        1 => [0xff; 32],
        s => bytes(32, s as u64).try_into().unwrap(),
    }
}

/// The engine's files (with a header, compressed) or its inner encryption layer.
struct Target {
    dir: vh::TempDir,
    inner: bool,
}
impl Target {
    fn write(&self, plain: &[u8], key: &[u8; 32], ad: &[u8]) -> vh::R<Vec<u8>> {
        let e = |e: snap::WriteError| vh::Failure::new("write", e.to_string());
        if self.inner {
            let mut v = vec![];
            snap::write(plain, &mut v, key, ad).map_err(e)?;
            Ok(v)
        } else {
            let p = self.dir.path().join("w");
            snap::write_to(plain, &p, key, ad).map_err(e)?;
            Ok(std::fs::read(&p).unwrap())
        }
    }
    fn read(&self, file: &[u8], key: &[u8; 32], ad: &[u8], what: &str) -> vh::R<Result<Vec<u8>, String>> {
        let r = if self.inner {
            vh::no_panic(|| snap::read(&mut &*file, key, ad))
        } else {
            let p = self.dir.path().join("r");
            std::fs::write(&p, file).unwrap();
            vh::no_panic(|| snap::read_from(&p, key, ad))
        };
        match r {
            Ok(r) => Ok(r.map_err(|e| e.to_string())),
            Err(m) => fail!("panic", "{what}: reading panicked: {m}"),
        }
    }
}

fn run(c: &Case) -> vh::R<Out> {
    let plain = c.plain.bytes().repeat(c.times as usize);
    let (k, ad) = (key(c.key), c.ad.bytes());
    let t = Target { dir: vh::TempDir::new(), inner: c.inner };
    let head = if c.inner { 0 } else { 7 };
    let a = t.write(&plain, &k, &ad)?;
    let (ok, oad, op) = (
        if c.other.0 { k } else { key(c.key.wrapping_add(1)) },
        if c.other.1 { ad.clone() } else { [&ad[..], b"+"].concat() },
        if c.other.2 { plain.clone() } else { bytes(plain.len(), 9999) },
    );
    let b = t.write(&op, &ok, &oad)?;
    let mut out = Out::new(false);
    for (i, y) in c.tries.iter().enumerate() {
        let what = format!("try {i} {y:?} on {} bytes of plaintext, inner {}", plain.len(), c.inner);
        let f = y.m.apply(&a, &b, head);
        let (k2, ad2) = (y.k.apply(k), y.a.apply(&ad));
        let r = t.read(&f, &k2, &ad2, &what)?;
        let same = f == a && ad2 == ad;
        if same && k2 == k {
            match r {
                Ok(p) => ensure!(p == plain, "wrong-data", "{what}: an unmodified file yields other data ({} bytes)", p.len()),
                Err(e) => fail!("refused", "{what}: an unmodified file is refused: {e}"),
            }
            out = out.tag("unmodified");
            continue;
        }
        // the other file as a whole, if its key and data are given
        if f == b && clamp(k2) == clamp(ok) && ad2 == oad {
            ensure!(r == Ok(op.clone()), "refused", "{what}: the other file is refused with its own key");
            continue;
        }
        if same && clamp(k2) == clamp(k) {
            continue; // known finding
        }
        out.nontrivial = true;
        if let Ok(p) = r {
            fail!(
                if f != a { "accepted-damaged" } else if k2 != k { "accepted-key" } else { "accepted-ad" },
                "{what}: accepted, {} the written data",
                if p == plain { "yields" } else { "yields other than" }
            );
        }
        out = out.tag(if f != a { "bytes" } else if k2 != k { "key" } else { "ad" });
    }
    Ok(out)
}

/// Files of some megabytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    kib: u16,
    odd: u16,
    seed: u16,
    ad: Pay,
    inner: bool,
    tries: Vec<Try>,
}
fn big(t: Tier) -> BoxedStrategy<Big> {
    let most = if t == Tier::Quick { 6000u16 } else { 20000 };
    let m = prop_oneof![
        6 => (any::<u32>(), 0u8..8).prop_map(|(a, b)| Mut::Flip(a, b)),
        // close to the end
        2 => (0u32..100, 0u8..8).prop_map(|(a, b)| Mut::Flip(u32::MAX - a, b)),
        2 => any::<u32>().prop_map(Mut::Truncate),
        1 => prop::collection::vec(any::<u8>(), 1..40).prop_map(Mut::Extend),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Mut::Swap(a, b)),
        1 => (0u8..4).prop_map(Mut::Region),
    ];
    let one = prop_oneof![6 => m.prop_map(|m| Try { m, k: KeyMut::Same, a: AdMut::Same }), 1 => attempt()];
    (0..most, any::<u16>(), any::<u16>(), (0u32..60, 0u16..5000), any::<bool>(), prop::collection::vec(one, 1..7))
        .prop_map(|(kib, odd, seed, a, inner, tries)| Big { kib, odd, seed, ad: Pay { len: a.0, s: a.1 }, inner, tries })
        .boxed()
}
fn run_big(c: &Big) -> vh::R<Out> {
    let plain = bytes(c.kib as usize * 1024 + c.odd as usize % 1024, c.seed as u64);
    let (k, ad) = (key(c.seed), c.ad.bytes());
    let t = Target { dir: vh::TempDir::new(), inner: c.inner };
    let head = if c.inner { 0 } else { 7 };
    let a = t.write(&plain, &k, &ad)?;
    let b = t.write(&bytes(plain.len(), !c.seed as u64), &k, &ad)?;
    let mut out = Out::new(false).tag_if(plain.len() > 1 << 20, "above 1 MiB").tag_if(plain.len() > 4 << 20, "above 4 MiB");
    for (i, y) in c.tries.iter().enumerate() {
        let what = format!("try {i} {y:?} on {} bytes of plaintext, inner {}", plain.len(), c.inner);
        let m = match y.m {
            // a position counted from the end
            Mut::Flip(p, x) if p > u32::MAX - 100 => Mut::Flip((a.len() - 1) as u32 - (u32::MAX - p), x),
            ref m => m.clone(),
        };
        let f = m.apply(&a, &b, head);
        let (k2, ad2) = (y.k.apply(k), y.a.apply(&ad));
        if (f == a || f == b) && clamp(k2) == clamp(k) && ad2 == ad {
            continue;
        }
        out.nontrivial = true;
        if t.read(&f, &k2, &ad2, &what)?.is_ok() {
            fail!("accepted-damaged", "{what}: accepted");
        }
    }
    ensure!(t.read(&a, &k, &ad, "unmodified")? == Ok(plain), "refused", "the unmodified file does not read back");
    Ok(out)
}

/// Every bit of a small file, every truncation and every bit of the key, one by one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sweep {
    plain: Pay,
    key: u16,
    ad: Pay,
    inner: bool,
}
fn sweep(_: Tier) -> BoxedStrategy<Sweep> {
    ((0u32..50, 0u16..5000), any::<u16>(), (0u32..20, 0u16..5000), any::<bool>())
        .prop_map(|(p, key, a, inner)| Sweep { plain: Pay { len: p.0, s: p.1 }, key, ad: Pay { len: a.0, s: a.1 }, inner })
        .boxed()
}
fn run_sweep(c: &Sweep) -> vh::R<Out> {
    let (plain, k, ad) = (c.plain.bytes(), key(c.key), c.ad.bytes());
    let t = Target { dir: vh::TempDir::new(), inner: c.inner };
    let a = t.write(&plain, &k, &ad)?;
    let check = |f: &[u8], k: &[u8; 32], ad: &[u8], what: String| -> vh::R<()> {
        if t.read(f, k, ad, &what)?.is_ok() {
            fail!("accepted-damaged", "{what}: accepted");
        }
        Ok(())
    };
    let mut f = a.clone();
    for i in 0..a.len() * 8 {
        f[i / 8] ^= 1 << (i % 8);
        check(&f, &k, &ad, format!("bit {i} flipped, inner {}", c.inner))?;
        f[i / 8] ^= 1 << (i % 8);
    }
    for n in 0..a.len() {
        check(&a[..n], &k, &ad, format!("truncated to {n} of {} bytes, inner {}", a.len(), c.inner))?;
        check(&a[n + 1..], &k, &ad, format!("first {} of {} bytes missing, inner {}", n + 1, a.len(), c.inner))?;
    }
    for i in 0..256 {
        let k2 = KeyMut::Bit(i as u8).apply(k);
        if clamp(k2) != clamp(k) {
            check(&a, &k2, &ad, format!("bit {i} of the key flipped, inner {}", c.inner))?;
        }
    }
    for i in 0..ad.len() * 8 {
        check(&a, &k, &AdMut::Flip(i as u32).apply(&ad), format!("bit {i} of the associated data flipped, inner {}", c.inner))?;
    }
    ensure!(t.read(&a, &k, &ad, "unmodified")? == Ok(plain), "refused", "the unmodified file does not read back");
    Ok(Out::new(true))
}

/// An instance with clients, an in-memory snapshot and files.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inst {
    secret: Pay,
    m: Mut,
    key: u8,
    /// load_snapshot or load_client_from_snapshot of a loaded / in-memory / new client
    how: u8,
    /// for `plain`: mutations of the decrypted contents
    inside: Vec<(u32, u8)>,
    cut: Option<u32>,
}
fn inst(_: Tier) -> BoxedStrategy<Inst> {
    (pay(), mutation(), prop_oneof![3 => Just(0u8), 1 => 1..NK], 0u8..4, prop::collection::vec((any::<u32>(), any::<u8>()), 0..4), prop::option::weighted(0.3, any::<u32>()))
        .prop_map(|(secret, m, key, how, inside, cut)| Inst { secret, m, key, how, inside, cut })
        .boxed()
}
fn fill(c: &Client, m: &mut Cl, p: &Pay) -> vh::R<()> {
    for l in [Loc { v: 0, r: 0 }, Loc { v: 0, r: 1 }, Loc { v: 1, r: 2 }] {
        let v = [&p.bytes()[..], &[l.v, l.r]].concat();
        c.vault(vault_path(l.v)).write_secret(l.get(), v.clone()).map_err(|e| vh::Failure::new("write", e.to_string()))?;
        m.secrets.insert(l, Sec::Live(v));
        m.vaults.insert(l.v);
    }
    for k in [&b"key"[..], b""] {
        let v = [k, &p.bytes()].concat();
        c.store().insert(k.to_vec(), v.clone(), None).map_err(|e| vh::Failure::new("insert", e.to_string()))?;
        m.store.insert(k.to_vec(), Entry { v, exp: None });
    }
    Ok(())
}
fn er<E: std::fmt::Display>(sig: &'static str) -> impl Fn(E) -> vh::Failure {
    move |e| vh::Failure::new(sig, e.to_string())
}
/// A file with three clients under key 0.
fn other_file(dir: &vh::TempDir, p: &Pay) -> vh::R<Vec<u8>> {
    let path = SnapshotPath::from_path(dir.path().join("other"));
    let hold = Stronghold::default();
    for i in 0..NP {
        let c = hold.create_client(client_path(i)).map_err(er("create"))?;
        fill(&c, &mut Cl::default(), p)?;
    }
    hold.commit_with_keyprovider(&path, &provider(0)).map_err(er("commit"))?;
    Ok(std::fs::read(path.as_path()).unwrap())
}
fn run_inst(c: &Inst) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let hold = Stronghold::default();
    // client 0 is loaded, client 1 is only in the in-memory snapshot, client 2 is unknown
    let mut ms = BTreeMap::new();
    let own = SnapshotPath::from_path(dir.path().join("own"));
    for i in 0..2u8 {
        let cl = hold.create_client(client_path(i)).map_err(er("create"))?;
        let mut m = Cl::default();
        fill(&cl, &mut m, &c.secret)?;
        ms.insert(i, m);
    }
    hold.commit_with_keyprovider(&own, &provider(0)).map_err(er("commit"))?;
    hold.unload_client(hold.get_client(client_path(1)).unwrap()).map_err(er("unload"))?;
    hold.store().insert(b"x".to_vec(), b"y".to_vec(), None).map_err(er("insert"))?;
    let a = other_file(&dir, &Pay { len: c.secret.len / 2 + 3, s: 77 })?;
    let b = std::fs::read(own.as_path()).unwrap();
    let f = c.m.apply(&a, &b, 7);
    let path = SnapshotPath::from_path(dir.path().join("bad"));
    std::fs::write(path.as_path(), &f).unwrap();
    let what = format!("{c:?}");
    if c.key == 0 && (f == a || f == b) {
        return Ok(Out::new(false));
    }
    let r = vh::no_panic(|| match c.how {
        0 => hold.load_snapshot(&provider(c.key), &path).map_err(|e| e.to_string()),
        h => hold.load_client_from_snapshot(client_path(h - 1), &provider(c.key), &path).map(|_| ()).map_err(|e| e.to_string()),
    });
    match r {
        Err(m) => fail!("panic", "{what}: loading panicked: {m}"),
        Ok(Ok(())) => fail!("accepted", "{what}: a damaged file or a wrong key was accepted"),
        Ok(Err(_)) => {}
    }
    // nothing has changed
    let c0 = hold.get_client(client_path(0)).map_err(er("client-lost"))?;
    check_client(&c0, &ms[&0], &format!("{what}: loaded client"))?;
    ensure!(hold.get_client(client_path(1)).is_err() && hold.get_client(client_path(2)).is_err(), "client-appeared", "{what}: a client is loaded after a refused load");
    ensure_eq!(hold.store().get(b"x").map_err(er("store"))?, Some(b"y".to_vec()), "instance-store", "{what}");
    // the file itself is untouched, and the own file still loads
    ensure!(std::fs::read(path.as_path()).unwrap() == f, "file-changed", "{what}: the file was changed");
    let c1 = hold.load_client(client_path(1)).map_err(|e| vh::Failure::new("snapshot-lost", format!("{what}: the in-memory snapshot lost a client: {e}")))?;
    check_client(&c1, &ms[&1], &format!("{what}: client of the in-memory snapshot"))?;
    ensure!(hold.load_client(client_path(2)).is_err(), "snapshot-changed", "{what}: the in-memory snapshot has a client of the refused file");
    hold.commit_with_keyprovider(&own, &provider(0)).map_err(er("commit-after"))?;
    let h2 = Stronghold::default();
    h2.load_snapshot(&provider(0), &own).map_err(er("reload"))?;
    for i in 0..2u8 {
        check_client(&h2.load_client(client_path(i)).map_err(er("reload"))?, &ms[&i], &format!("{what}: committed afterwards"))?;
    }
    Ok(Out::new(true).tag(if c.key == 0 { "damaged" } else { "wrong-key" }))
}

/// Contents that decrypt but were not written by this library: no crash, whatever they are.
fn run_plain(c: &Inst) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let a = other_file(&dir, &c.secret)?;
    let pw: [u8; 32] = provider_key();
    let tmp = dir.path().join("plain");
    std::fs::write(&tmp, &a).unwrap();
    let mut plain = snap::read_from(&tmp, &pw, &[]).map_err(er("read"))?;
    let n = plain.len();
    for (at, x) in &c.inside {
        match at % 5 {
            0 => plain[*at as usize / 5 % n] = *x,
            1 => plain[*at as usize / 5 % n] ^= 1 << (x % 8),
            // the front, where lengths and ids are
            2 => plain[*at as usize / 5 % 200.min(n)] = *x,
            3 => plain[*at as usize / 5 % n] = plain[*at as usize / 5 % n].wrapping_add(if x % 2 == 0 { 1 } else { 255 }),
            _ => {
                let i = *at as usize / 5 % n;
                for y in plain[i..].iter_mut().take(*x as usize % 9) {
                    *y = if x % 2 == 0 { 0 } else { 255 };
                }
            }
        }
    }
    if let Some(l) = c.cut {
        plain.truncate(l as usize % n);
    }
    snap::write_to(&plain, &tmp, &pw, &[]).map_err(er("write"))?;
    let path = SnapshotPath::from_path(&tmp);
    let what = format!("{c:?}");
    let mut loaded = 0;
    let mut refused = 0;
    vh::no_panic(|| {
        let hold = Stronghold::default();
        match hold.load_snapshot(&provider(0), &path) {
            Err(_) => refused += 1,
            Ok(_) => {
                for i in 0..NP {
                    if let Ok(cl) = hold.load_client(client_path(i)) {
                        loaded += 1;
                        for l in [Loc { v: 0, r: 0 }, Loc { v: 0, r: 1 }, Loc { v: 1, r: 2 }, Loc { v: 2, r: 2 }] {
                            let _ = cl.record_exists(&l.get());
                            let _ = cmp_secret(&cl, &l.get(), b"x");
                        }
                        for v in 0..3 {
                            let _ = cl.vault_exists(vault_path(v));
                            let _ = cl.vault(vault_path(v)).write_secret(Loc { v, r: 0 }.get(), vec![1, 2, 3]);
                            let _ = cl.vault(vault_path(v)).delete_secret(Loc { v, r: 1 }.record_path().unwrap());
                        }
                        let _ = cl.store().keys();
                        let _ = cl.store().get(b"key");
                        let _ = cl.store().insert(b"key".to_vec(), vec![1], None);
                        let _ = cl.store().delete(b"");
                    }
                }
                let _ = hold.commit_with_keyprovider(&path, &provider(0));
            }
        }
    })
    .map_err(|m| {
        let site = m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
        vh::Failure::new(format!("panic:{site}"), format!("{what}: using a snapshot with foreign contents panicked: {m}"))
    })?;
    Ok(Out::new(!c.inside.is_empty() || c.cut.is_some()).tag_if(loaded > 0, "loaded").tag_if(refused > 0, "refused"))
}
fn provider_key() -> [u8; 32] {
    let b = provider(0).try_unlock().expect("unlock");
    let r: [u8; 32] = (*b.borrow()).try_into().expect("32 bytes");
    r
}

fn clamp_finding() -> vh::R<()> {
    let t = Target { dir: vh::TempDir::new(), inner: false };
    let mut k = key(5);
    let f = t.write(b"data", &k, b"")?;
    k[0] ^= 1;
    if t.read(&f, &k, b"", "key that differs in a clamped bit")?.is_ok() {
        fail!("key-clamp", "a key that differs only in bit 0 opens the file");
    }
    Ok(())
}

// ---------------------------------------------------------------- readers and writers that give and take in parts

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Streams {
    data: Pay,
    ad: u8,
    /// how many bytes are taken or given at a time (0: interrupted), in turn
    steps: Vec<u16>,
    /// the stream fails behind so many bytes
    fail: Option<u32>,
    /// reading: the input ends behind so many bytes
    end: Option<u32>,
}
fn streams(t: Tier) -> BoxedStrategy<Streams> {
    let most = if t == Tier::Quick { 20_000u32 } else { 300_000 };
    let step = prop_oneof![2 => Just(0u16), 3 => 1u16..4, 3 => 4u16..80, 2 => 80u16..9000];
    let data = prop_oneof![1 => Just(0), 4 => 0u32..300, 2 => 0u32..most].prop_flat_map(|len| any::<u16>().prop_map(move |s| (len, s)));
    (data, 0u8..40, prop::collection::vec(step, 1..6), prop::option::weighted(0.4, any::<u32>()), prop::option::weighted(0.3, any::<u32>()))
        .prop_map(|((len, s), ad, mut steps, fail, end)| {
            steps.push(7);
            Streams { data: Pay { len: len as _, s: s as _ }, ad, steps, fail, end }
        })
        .boxed()
}
struct Slow<'a> {
    bytes: Vec<u8>,
    at: usize,
    steps: &'a [u16],
    turn: usize,
    fail: usize,
}
impl Slow<'_> {
    /// the number of bytes of this turn
    fn next(&mut self, want: usize) -> std::io::Result<usize> {
        let n = self.steps[self.turn % self.steps.len()] as usize;
        self.turn += 1;
        match n {
            0 => Err(std::io::ErrorKind::Interrupted.into()),
            _ if want > 0 && self.at >= self.fail => Err(std::io::Error::other("the stream has failed")),
            n => Ok(n.min(want).min(self.fail - self.at)),
        }
    }
}
impl std::io::Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let want = buf.len().min(self.bytes.len() - self.at);
        let n = self.next(want)?;
        buf[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl std::io::Write for Slow<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.next(buf.len())?;
        self.bytes.extend_from_slice(&buf[..n]);
        self.at += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn run_streams(c: &Streams) -> vh::R<Out> {
    let data = c.data.bytes();
    let ad = bytes(c.ad as usize, 3);
    let key: snap::Key = [9; 32];
    let size = data.len() + 48;
    let fail = c.fail.map_or(usize::MAX, |f| f as usize % (size + 20));
    let r = vh::no_panic(|| {
        let mut w = Slow { bytes: vec![], at: 0, steps: &c.steps, turn: 0, fail };
        let r = snap::write(&data, &mut w, &key, &ad);
        (r, w.bytes)
    });
    let Ok((r, sealed)) = r else { fail!("panic", "writing: {}", r.err().unwrap_or_default()) };
    if fail < size {
        ensure!(r.is_err(), "write-unnoticed", "the output failed behind {fail} of {size} bytes, and the write reports success");
    } else {
        ensure!(r.is_ok(), "write", "{r:?}");
        ensure!(sealed.len() == size, "sealed-size", "{} bytes of {size}", sealed.len());
        let back = snap::read(&mut &sealed[..], &key, &ad);
        ensure!(back.as_ref().ok() == Some(&data), "sealed", "what was written in parts does not read back: {:?}", back.err());
    }
    // reading
    let mut sealed = vec![];
    snap::write(&data, &mut sealed, &key, &ad).map_err(|e| vh::Failure::new("write", e.to_string()))?;
    let end = c.end.map_or(size, |e| e as usize % (size + 1));
    sealed.truncate(end);
    let r = vh::no_panic(|| snap::read(&mut Slow { bytes: sealed.clone(), at: 0, steps: &c.steps, turn: 0, fail }, &key, &ad));
    let Ok(r) = r else { fail!("panic", "reading: {}", r.err().unwrap_or_default()) };
    match r {
        Ok(d) => {
            ensure!(end == size && fail >= end, "read-cut", "the input {} behind {} of {size} bytes, and the read reports success", if fail < end { "failed" } else { "ended" }, fail.min(end));
            ensure!(d == data, "read", "read in parts: {} bytes, written {}", d.len(), data.len());
        }
        Err(e) => ensure!(end < size || fail <= end, "read-refused", "an input that gives its bytes in parts is refused: {e}"),
    }
    Ok(Out::new(c.steps.iter().any(|s| (*s as usize) < size)).tag_if(c.steps.contains(&0), "interrupted").tag_if(fail < size, "failing").tag_if(end < size, "cut"))
}

fn main() {
    vh::main(vec![Property {
        id: "C04",
        level: "exploration",
        assumptions: &["keys that differ only in the five bits that X25519 ignores are treated as one key (known finding key-clamp)",
            "a 128-bit authentication tag is not forged by chance"],
        facets: vec![
            Facet { name: "bytes", rule: "files and inner encryptions of random contents with random byte-level changes, other keys and other associated data; non-trivial = at least one changed input", cases: (20000, 600000), batch: 50, racy: false, strategy, run }.boxed(),
            Facet { name: "sweep", rule: "small files: every single bit of the file, of the key and of the associated data flipped, every truncation at either end; non-trivial = always", cases: (64, 1500), batch: 4, racy: false, strategy: sweep, run: run_sweep }.boxed(),
            Facet { name: "large", rule: "files and inner encryptions of up to 6 MiB (thorough: 20 MiB) with changes anywhere in the ciphertext, then the unmodified file; non-trivial = at least one changed input", cases: (640, 12000), batch: 4, racy: false, strategy: big, run: run_big }.boxed(),
            Facet { name: "instance", rule: "damaged files and wrong keys loaded by an instance with a loaded client and one in the in-memory snapshot, all of which is compared afterwards; non-trivial = the file or key is wrong", cases: (1600, 40000), batch: 20, racy: false, strategy: inst, run: run_inst }.boxed(),
            Facet { name: "streams", rule: "the inner encryption through writers and readers that take and give a few bytes at a time, are interrupted, fail or end early; non-trivial = some part is shorter than the whole", cases: (8000, 300000), batch: 200, racy: false, strategy: streams, run: run_streams }.boxed(),
            Facet { name: "contents", rule: "snapshots whose decrypted contents were changed before sealing them again under the right key; the loaded clients are used; non-trivial = at least one change", cases: (2400, 80000), batch: 20, racy: false, strategy: inst, run: run_plain }.boxed(),
        ],
        findings: vec![Finding { sig: "key-clamp", run: clamp_finding }],
    }])
}
