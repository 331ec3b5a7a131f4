//! C14: protected memory containers return exactly what was stored in them.
use chk::{
    engine::runtime::{
        locked_memory::LockedMemory,
        memories::{
            buffer::Buffer,
            file_memory::FileMemory,
            frag::{Frag, FragStrategy},
            noncontiguous_memory::{NCConfig, NonContiguousMemory},
            ram_memory::RamMemory,
        },
        Bytes, MemoryError,
    },
    mem::OwnMem,
    *,
};
use std::{collections::BTreeSet, fmt::Debug, panic::AssertUnwindSafe, path::PathBuf, sync::Barrier};
use vh::prelude::*;
use zeroize::Zeroize;

const NC: usize = 32;
const KINDS: u8 = 9;
fn config(k: u8) -> NCConfig {
    match k {
        3 => NCConfig::FullRam,
        4 => NCConfig::FullFile,
        5 => NCConfig::RamAndFile,
        6 => NCConfig::FragAllocation(FragStrategy::Map),
        7 => NCConfig::FragAllocation(FragStrategy::Direct),
        _ => NCConfig::FragAllocation(FragStrategy::Hybrid),
    }
}
fn kind_name(k: u8) -> &'static str {
    ["buffer", "ram", "file", "nc-ram", "nc-file", "nc-ram-file", "nc-map", "nc-direct", "nc-hybrid"][k as usize % 9]
}

enum C {
    Buf(Buffer<u8>),
    Ram(RamMemory),
    File(FileMemory),
    Nc(NonContiguousMemory),
}
impl C {
    fn alloc(kind: u8, p: &[u8], size: usize) -> Result<C, MemoryError> {
        Ok(match kind {
            0 => C::Buf(Buffer::alloc(p, size)),
            1 => C::Ram(RamMemory::alloc(p, size)?),
            2 => C::File(FileMemory::alloc(p, size)?),
            k => C::Nc(NonContiguousMemory::alloc(p, size, config(k))?),
        })
    }
    fn unlock(&self) -> Result<Vec<u8>, MemoryError> {
        Ok(match self {
            C::Buf(b) => b.borrow().to_vec(),
            C::Ram(m) => m.unlock()?.borrow().to_vec(),
            C::File(m) => m.unlock()?.borrow().to_vec(),
            C::Nc(m) => m.unlock()?.borrow().to_vec(),
        })
    }
    fn dup(&self) -> C {
        match self {
            C::Buf(m) => C::Buf(m.clone()),
            C::Ram(m) => C::Ram(m.clone()),
            C::File(m) => C::File(m.clone()),
            C::Nc(m) => C::Nc(m.clone()),
        }
    }
    fn update(self, p: &[u8], size: usize) -> Result<C, MemoryError> {
        let b = Buffer::alloc(p, p.len());
        Ok(match self {
            C::Buf(_) => C::Buf(b),
            C::Ram(m) => C::Ram(m.update(b, size)?),
            C::File(m) => C::File(m.update(b, size)?),
            C::Nc(m) => C::Nc(m.update(b, size)?),
        })
    }
    fn refresh(&self) -> Result<(), MemoryError> {
        match self {
            C::Nc(m) => m.refresh(),
            _ => Ok(()),
        }
    }
    fn zeroize(&mut self) {
        match self {
            C::Buf(m) => m.zeroize(),
            C::Ram(m) => m.zeroize(),
            C::File(m) => m.zeroize(),
            C::Nc(m) => m.zeroize(),
        }
    }
    fn debug(&self) -> String {
        match self {
            C::Buf(m) => format!("{m:?} {:?} {m:#?}", m.borrow()),
            C::Ram(m) => format!("{m:?} {m:#?}"),
            C::File(m) => format!("{m:?} {m:#?}"),
            C::Nc(m) => format!("{m:?} {m:#?}"),
        }
    }
    fn ser(&self, json: bool) -> Result<Vec<u8>, String> {
        macro_rules! s {
            ($m:expr) => {
                if json { serde_json::to_vec($m).map_err(|e| e.to_string()) } else { bincode::serialize($m).map_err(|e| e.to_string()) }
            };
        }
        match self {
            C::Buf(m) => s!(m),
            C::Ram(m) => s!(m),
            C::File(m) => s!(m),
            C::Nc(m) => s!(m),
        }
    }
    fn de(kind: u8, json: bool, b: &[u8]) -> Result<C, String> {
        macro_rules! d {
            ($t:ty) => {
                if json { serde_json::from_slice::<$t>(b).map_err(|e| e.to_string()) } else { bincode::deserialize::<$t>(b).map_err(|e| e.to_string()) }
            };
        }
        Ok(match kind {
            0 => C::Buf(d!(Buffer<u8>)?),
            1 => C::Ram(d!(RamMemory)?),
            2 => C::File(d!(FileMemory)?),
            _ => C::Nc(d!(NonContiguousMemory)?),
        })
    }
}

fn np<T>(what: &str, f: impl FnOnce() -> T) -> vh::R<T> {
    chk::np(what, AssertUnwindSafe(f))
}

// ---------------------------------------------------------------------------------------------
// histories of one container and its copies

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Unlock(u8),
    Clone(u8),
    Drop(u8),
    Refresh(u8),
    Serde(u8, bool),
    Update(u8, Pay),
    Poke(u8, u16, u8),
    Debug(u8),
    Zeroize(u8),
    /// threads, each a list of actions on the same container
    Par(u8, Vec<Vec<u8>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    kind: u8,
    pay: Pay,
    ops: Vec<Op>,
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => any::<u8>().prop_map(Op::Unlock),
        3 => any::<u8>().prop_map(Op::Clone),
        2 => any::<u8>().prop_map(Op::Drop),
        3 => any::<u8>().prop_map(Op::Refresh),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Op::Serde(a, b)),
        2 => (any::<u8>(), pay()).prop_map(|(a, p)| Op::Update(a, p)),
        2 => (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| Op::Poke(a, b, c)),
        1 => any::<u8>().prop_map(Op::Debug),
        1 => any::<u8>().prop_map(Op::Zeroize),
        1 => (any::<u8>(), prop::collection::vec(prop::collection::vec(0u8..5, 1..4), 2..4)).prop_map(|(a, t)| Op::Par(a, t)),
    ]
    .boxed()
}
fn hist(_: Tier) -> BoxedStrategy<Hist> {
    (0..KINDS, pay(), prop::collection::vec(op(), 1..14)).prop_map(|(kind, pay, ops)| Hist { kind, pay, ops }).boxed()
}
fn fit(kind: u8, p: &Pay) -> Pay {
    Pay { len: if kind >= 3 { NC as u32 } else { p.len.max((kind > 0) as u32) }, s: p.s }
}
fn par_action(c: &C, kind: u8, a: u8) -> Result<Vec<u8>, String> {
    let e = |e: MemoryError| e.to_string();
    match a {
        0 | 1 => c.unlock().map_err(e),
        2 => {
            c.refresh().map_err(e)?;
            c.unlock().map_err(e)
        }
        3 => c.dup().unlock().map_err(e),
        _ => C::de(kind, false, &c.ser(false)?)?.unlock().map_err(e),
    }
}
fn run_hist(h: &Hist) -> vh::R<Out> {
    let kn = kind_name(h.kind);
    let p0 = fit(h.kind, &h.pay).bytes();
    let c = match np("alloc", || C::alloc(h.kind, &p0, p0.len()))? {
        Ok(c) => c,
        Err(e) => fail!("alloc-refused", "{kn}: {} bytes are refused: {e}", p0.len()),
    };
    let mut pool: Vec<(C, Option<Vec<u8>>)> = vec![(c, Some(p0))];
    let (mut strong, mut tags) = (0, BTreeSet::new());
    let look = |pool: &Vec<(C, Option<Vec<u8>>)>, after: &Op| -> vh::R<()> {
        for (i, (c, m)) in pool.iter().enumerate() {
            match (np("unlock", || c.unlock())?, m) {
                (Ok(v), Some(m)) => ensure!(v == *m, "contents", "{kn}, container {i} after {after:?}: {} instead of {}", hex(&v), hex(m)),
                (Err(e), Some(_)) => fail!("unlock-refused", "{kn}, container {i} after {after:?}: {e}"),
                (Ok(v), None) => ensure!(h.kind == 0 && v.is_empty(), "zeroized-unlock", "{kn}: a zeroized container yields {} bytes", v.len()),
                (Err(_), None) => {}
            }
        }
        Ok(())
    };
    look(&pool, &Op::Unlock(0))?;
    for o in &h.ops {
        let n = pool.len();
        if n == 0 {
            break;
        }
        match o {
            Op::Unlock(i) => {
                let (c, m) = &pool[*i as usize % n];
                if m.is_some() {
                    for _ in 0..3 {
                        let v = np("unlock", || c.unlock())?.map_err(|e| Failure::new("unlock-refused", format!("{kn}: {e}")))?;
                        ensure!(Some(&v) == m.as_ref(), "contents", "{kn}: repeated unlock yields {}", hex(&v));
                    }
                }
            }
            Op::Clone(i) => {
                let k = *i as usize % n;
                // copying a zeroized container is not something that can succeed for a file
                if n < 4 && pool[k].1.is_some() {
                    let d = np("clone", || pool[k].0.dup())?;
                    let m = pool[k].1.clone();
                    pool.push((d, m));
                    strong += 1;
                }
            }
            Op::Drop(i) => {
                let k = *i as usize % n;
                if n > 1 {
                    let d = pool.remove(k);
                    np("drop", move || drop(d))?;
                    tags.insert("dropped a copy");
                }
            }
            Op::Refresh(i) => {
                let (c, m) = &pool[*i as usize % n];
                match np("refresh", || c.refresh())? {
                    Ok(()) => strong += (h.kind >= 3) as u32,
                    Err(e) => ensure!(m.is_none(), "refresh-refused", "{kn}: {e}"),
                }
            }
            Op::Serde(i, json) => {
                let k = *i as usize % n;
                match (np("serialise", || pool[k].0.ser(*json))?, pool[k].1.clone()) {
                    (Ok(b), Some(m)) => {
                        let d = np("deserialise", || C::de(h.kind, *json, &b))?;
                        match d {
                            Ok(d) => {
                                let e = (d, Some(m));
                                if n < 4 { pool.push(e) } else { pool[k] = e }
                            }
                            Err(e) => fail!("deserialise-refused", "{kn}: its own serialised form is refused: {e}"),
                        }
                        strong += 1;
                    }
                    (Err(e), Some(_)) => fail!("serialise-refused", "{kn}: {e}"),
                    (Ok(b), None) => ensure!(h.kind == 0, "zeroized-serialise", "{kn}: a zeroized container is serialised to {} bytes", b.len()),
                    (Err(_), None) => {
                        tags.insert("serialising a zeroized container");
                    }
                }
            }
            Op::Update(i, p) => {
                let k = *i as usize % n;
                let p = fit(h.kind, p).bytes();
                let (c, _) = pool.swap_remove(k);
                match np("update", move || (c.update(&p, p.len()), p))? {
                    (Ok(c), p) => pool.push((c, Some(p))),
                    (Err(e), p) => fail!("update-refused", "{kn}: {} bytes are refused: {e}", p.len()),
                }
                strong += 1;
            }
            Op::Poke(i, at, v) => {
                if let (C::Buf(b), Some(m)) = &mut pool[*i as usize % n] {
                    if !m.is_empty() {
                        let at = *at as usize % m.len();
                        np("borrow_mut", || b.borrow_mut()[at] = *v)?;
                        m[at] = *v;
                        tags.insert("changed in place");
                    }
                }
            }
            Op::Debug(i) => {
                let (c, m) = &pool[*i as usize % n];
                let t = np("debug", || c.debug())?;
                if let Some(m) = m {
                    let other: Vec<u8> = m.iter().map(|b| b ^ 0x35).collect();
                    if let Ok(o) = C::alloc(h.kind, &other, other.len()) {
                        ensure!(np("debug", || o.debug())? == t, "debug-text", "{kn}: the debug text depends on the contents: {t}");
                    }
                }
            }
            Op::Zeroize(i) => {
                let e = &mut pool[*i as usize % n];
                np("zeroize", || e.0.zeroize())?;
                e.1 = None;
                tags.insert("zeroized");
            }
            Op::Par(i, ts) => {
                let (c, m) = &pool[*i as usize % n];
                let Some(m) = m else { continue };
                let bar = Barrier::new(ts.len());
                // every other time the threads are stopped at arbitrary points
                let pause = if i % 2 == 0 { 0 } else { 3 + ts.iter().flatten().map(|a| *a as u32).sum::<u32>() % 40 };
                let rs: Vec<Result<Result<(), String>, String>> = chk::jitter::jitter(pause, *i as u64, |j| std::thread::scope(|s| {
                    let hs: Vec<_> = ts
                        .iter()
                        .map(|t| {
                            let bar = &bar;
                            s.spawn(move || {
                                let _part = j.join();
                                vh::no_panic(AssertUnwindSafe(|| {
                                    bar.wait();
                                    for a in t {
                                        let v = par_action(c, h.kind, *a)?;
                                        if v != *m {
                                            return Err(format!("action {a} yields {} instead of {}", hex(&v), hex(m)));
                                        }
                                    }
                                    Ok(())
                                }))
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Ok(Err("thread ended".into())))).collect()
                }));
                for r in rs {
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => fail!("concurrent", "{kn}: {e}"),
                        Err(p) => fail!("concurrent-panic", "{kn}: {p}"),
                    }
                }
                tags.insert("concurrent use");
                strong += 1;
            }
        }
        look(&pool, o)?;
    }
    np("drop", move || drop(pool))?;
    let mut out = Out::new(strong > 0).tag(kn);
    for t in tags {
        out = out.tag(t);
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// payloads beyond any usual size

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    kind: u8,
    len: u32,
    seed: u16,
    ops: Vec<u8>,
}
fn big(t: Tier) -> BoxedStrategy<Big> {
    let top = if t == Tier::Quick { 5u32 << 20 } else { 40 << 20 };
    let len = prop_oneof![
        2 => 100_000u32..top,
        2 => (17u32..22, 0u32..3).prop_map(|(n, d)| (1 << n) + d - 1),
        1 => (0u32..60, 0u32..3).prop_map(|(n, d)| 131_072 + n * 65_536 + d - 1),
    ];
    (0u8..3, len, any::<u16>(), prop::collection::vec(0u8..5, 1..4)).prop_map(|(kind, len, seed, ops)| Big { kind, len, seed, ops }).boxed()
}
fn run_big(b: &Big) -> vh::R<Out> {
    let kn = kind_name(b.kind);
    let mut p = bytes(b.len as usize, 90_000 + b.seed as u64);
    let same = |c: &C, p: &[u8], what: &str| -> vh::R<()> {
        let v = np("unlock", || c.unlock())?.map_err(|e| Failure::new("unlock-refused", format!("{kn} of {} bytes, {what}: {e}", p.len())))?;
        ensure_eq!(v.len(), p.len(), "contents", "{kn}: length {what}");
        if let Some(i) = v.iter().zip(p).position(|(a, b)| a != b) {
            fail!("contents", "{kn} of {} bytes differs from byte {i} on, {what}", p.len());
        }
        Ok(())
    };
    let e = |e: MemoryError| Failure::new("refused", format!("{kn} of {} bytes: {e}", b.len));
    let mut c = np("alloc", || C::alloc(b.kind, &p, p.len()))?.map_err(e)?;
    same(&c, &p, "stored")?;
    for o in &b.ops {
        match o {
            0 => same(&c, &p, "unlocked again")?,
            1 => {
                let d = np("clone", || c.dup())?;
                same(&d, &p, "copied")?;
                drop(std::mem::replace(&mut c, d));
                same(&c, &p, "copied, without the original")?;
            }
            2 => {
                let s = np("serialise", || c.ser(false))?.map_err(|e| Failure::new("serialise-refused", format!("{kn} of {} bytes: {e}", p.len())))?;
                c = np("deserialise", || C::de(b.kind, false, &s))?.map_err(|e| Failure::new("deserialise-refused", format!("{kn} of {} bytes: {e}", p.len())))?;
                same(&c, &p, "from its serialised form")?;
            }
            3 => {
                let n = p.len();
                p[n - 1] ^= 1;
                p[n / 2] ^= 0x80;
                p.truncate(n - b.seed as usize % 3);
                let q = p.clone();
                c = np("update", move || c.update(&q, q.len()))?.map_err(e)?;
                same(&c, &p, "updated")?;
            }
            _ => {
                // contents that differ in one byte only are not equal
                let at = (b.seed as usize * 7919) % p.len();
                let mut q = p.clone();
                q[at] ^= 4;
                let (x, y, z) = (Buffer::alloc(&p, p.len()), Buffer::alloc(&q, q.len()), Buffer::alloc(&p, p.len()));
                ensure!(np("compare", || x != y && x == z)?, "compare", "comparison of buffers of {} bytes, equal or different at {at}", p.len());
            }
        }
    }
    np("drop", move || drop(c))?;
    Ok(Out::new(true).tag(kn).tag_if(b.len > 1 << 20, "above 1 MiB"))
}

// ---------------------------------------------------------------------------------------------
// requests

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Req {
    Alloc { pay: Pay, size: u64 },
    Update { pay: Pay, size: u64 },
    /// the serialised form of some bytes
    Form { pay: Pay, json: bool },
    /// arbitrary serialised input
    Raw { json: bool, b: Vec<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Request {
    kind: u8,
    r: Req,
}
fn request(_: Tier) -> BoxedStrategy<Request> {
    let p = prop_oneof![3 => pay(), 2 => (prop::sample::select(vec![0u32, 1, 31, 32, 33, 64]), 2u16..99).prop_map(|(len, s)| Pay { len, s })].boxed();
    let sz = (p.clone(), prop_oneof![
        4 => Just(None),
        2 => (-3i64..4).prop_map(|d| Some(Err(d))),
        2 => prop::sample::select(vec![0u64, 1, 32, 33, 4096, 1 << 20, 1 << 40, u64::MAX / 2, u64::MAX - 1, u64::MAX]).prop_map(|s| Some(Ok(s))),
    ])
        .prop_map(|(p, s)| {
            let size = match s {
                None => p.len as u64,
                Some(Err(d)) => (p.len as i64 + d).max(0) as u64,
                Some(Ok(s)) => s,
            };
            (p, size)
        })
        .boxed();
    let json = prop_oneof!["\\[[0-9, ]{0,12}\\]", "\\[(([0-9]{1,3}|-1|null|\"a\"|1.5),){0,3}(255|256|0)\\]", "[\\[\\]{}\":,0-9a-z ]{0,10}"].prop_map(|s| s.into_bytes());
    let r = prop_oneof![
        4 => sz.clone().prop_map(|(pay, size)| Req::Alloc { pay, size }),
        2 => sz.prop_map(|(pay, size)| Req::Update { pay, size }),
        3 => (p, any::<bool>()).prop_map(|(pay, json)| Req::Form { pay, json }),
        1 => json.prop_map(|b| Req::Raw { json: true, b }),
        1 => prop::collection::vec(prop_oneof![Just(0u8), Just(32), Just(255), any::<u8>()], 0..24).prop_map(|b| Req::Raw { json: false, b }),
    ];
    (0..KINDS, r).prop_map(|(kind, r)| Request { kind, r }).boxed()
}
fn run_request(q: &Request) -> vh::R<Out> {
    let kn = kind_name(q.kind);
    let fits = |len: usize, size: usize| match q.kind {
        0 => true,
        1 | 2 => len == size && size > 0,
        _ => len == NC && size == NC,
    };
    let judge = |what: &str, r: Result<C, String>, want: bool, p: &[u8]| -> vh::R<()> {
        match (r, want) {
            (Ok(c), true) => match np("unlock", || c.unlock())? {
                Ok(v) => ensure!(v == p, "request-contents", "{kn} by {what}: {} instead of {}", hex(&v), hex(p)),
                Err(e) => fail!("unlock-refused", "{kn} by {what}: {e}"),
            },
            (Err(_), false) => {}
            (Ok(_), false) => fail!(format!("{what}-accepted"), "{kn}: {} bytes are accepted: {:?}", p.len(), q.r),
            (Err(e), true) => fail!(format!("{what}-refused"), "{kn}: {} bytes are refused: {e}", p.len()),
        }
        Ok(())
    };
    let refused = match &q.r {
        Req::Alloc { pay, size } => {
            let p = pay.bytes();
            // a plain buffer has no way to refuse; its contract is that the sizes agree
            let size = if q.kind == 0 { p.len() } else { *size as usize };
            let r = np("alloc", || C::alloc(q.kind, &p, size))?.map_err(|e| e.to_string());
            let want = fits(p.len(), size);
            judge("alloc", r, want, &p)?;
            !want
        }
        Req::Update { pay, size } => {
            let p = pay.bytes();
            let size = if q.kind == 0 { p.len() } else { *size as usize };
            let first = bytes(NC, 77);
            let c = C::alloc(q.kind, &first, NC).map_err(|e| Failure::new("alloc-refused", e.to_string()))?;
            let r = np("update", || c.update(&p, size))?.map_err(|e| e.to_string());
            let want = fits(p.len(), size);
            judge("update", r, want, &p)?;
            !want
        }
        Req::Form { pay, json } => {
            let p = pay.bytes();
            let b = C::Buf(Buffer::alloc(&p, p.len())).ser(*json).map_err(|e| Failure::new("serialise-refused", e))?;
            let r = np("deserialise", || C::de(q.kind, *json, &b))?;
            let want = fits(p.len(), p.len());
            judge("deserialise", r, want, &p)?;
            !want
        }
        Req::Raw { json, b } => {
            match np("deserialise", || C::de(q.kind, *json, b))? {
                Ok(c) => {
                    let v = np("unlock", || c.unlock())?.map_err(|e| Failure::new("unlock-refused", format!("{kn}: {e}")))?;
                    let want: Option<Vec<u8>> = if *json { serde_json::from_slice(b).ok() } else { bincode::deserialize(b).ok() };
                    ensure!(want.as_ref() == Some(&v), "raw-contents", "{kn}: input {} yields {}, a list of bytes would be {want:?}", hex(b), hex(&v));
                    false
                }
                Err(_) => true,
            }
        }
    };
    Ok(Out::new(refused).tag(kn).tag(if refused { "refused" } else { "accepted" }))
}

// ---------------------------------------------------------------------------------------------
// comparisons and typed buffers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cmp {
    ty: u8,
    a: Pay,
    /// how the other contents come from the first
    how: u8,
    at: u16,
    bit: u8,
    cut: u8,
}
fn cmp(_: Tier) -> BoxedStrategy<Cmp> {
    (0u8..5, (prop_oneof![6 => 0u32..70, 1 => 500u32..530, 1 => 4090u32..4100], 0u16..500).prop_map(|(len, s)| Pay { len, s }), 0u8..6, any::<u16>(), 0u8..128, 1u8..70)
        .prop_map(|(ty, a, how, at, bit, cut)| Cmp { ty, a, how, at, bit, cut })
        .boxed()
}
trait Word: Bytes + PartialEq + Debug + Serialize + serde::de::DeserializeOwned {
    fn of(b: &[u8]) -> Self;
    fn flip(self, bit: u32) -> Self;
}
macro_rules! word {
    ($($t:ty),*) => {$(impl Word for $t {
        fn of(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
        fn flip(self, bit: u32) -> Self { self ^ (1 as $t) << (bit % <$t>::BITS) }
    })*};
}
word!(u8, u16, u32, u64, u128);
fn run_cmp(c: &Cmp) -> vh::R<Out> {
    match c.ty {
        0 => cmp_t::<u8>(c),
        1 => cmp_t::<u16>(c),
        2 => cmp_t::<u32>(c),
        3 => cmp_t::<u64>(c),
        _ => cmp_t::<u128>(c),
    }
}
fn cmp_t<T: Word>(c: &Cmp) -> vh::R<Out> {
    let w = std::mem::size_of::<T>();
    let raw = Pay { len: c.a.len * w as u32, s: c.a.s }.bytes();
    let a: Vec<T> = raw.chunks(w).map(T::of).collect();
    let mut b = a.clone();
    let cut = (c.cut as usize).min(b.len());
    match c.how {
        0 => {}
        1 | 2 if !b.is_empty() => {
            let i = if c.how == 1 { c.at as usize % b.len() } else { b.len() - 1 };
            b[i] = b[i].flip(c.bit as u32);
        }
        3 => b.truncate(b.len() - cut),
        4 => b.extend_from_slice(&a.iter().cycle().take(c.cut as usize).copied().collect::<Vec<_>>()),
        5 => b.push(T::of(&vec![0u8; w])),
        _ => {}
    }
    let same = a == b;
    let mut x = Buffer::alloc(&a, a.len());
    let mut y = Buffer::alloc(&b, b.len());
    ensure!(x.len() == a.len() && x.size() == a.len() * w && x.is_empty() == a.is_empty(), "size", "{} elements of {w} bytes: len {} size {}", a.len(), x.len(), x.size());
    let mut verdict = |what: &str, r: bool| -> vh::R<()> {
        ensure!(r == same, format!("equal:{what}"), "comparison of {} and {} elements of {w} bytes ({:?}) says {r}", a.len(), b.len(), c);
        Ok(())
    };
    verdict("buffer", np("buffer ==", || x == y)?)?;
    verdict("buffer", np("buffer ==", || y == x)?)?;
    {
        let (r, s) = (x.borrow(), y.borrow());
        verdict("ref", np("ref ==", || r == s)?)?;
        verdict("ref", np("ref ==", || s == r)?)?;
        ensure!(r == r.clone(), "equal:self", "a borrow differs from its copy");
        // comparing borrowed buffers, and after a borrow of the same buffer ended
        verdict("borrowed-buffer", np("buffer ==", || x == y)?)?;
        ensure!(*r == a[..] && *s == b[..], "contents", "borrowed contents");
    }
    {
        let r = x.borrow();
        let s = y.borrow_mut();
        verdict("ref-refmut", np("ref == refmut", || r == s)?)?;
        verdict("refmut-ref", np("refmut == ref", || s == r)?)?;
    }
    {
        let (r, s) = (x.borrow_mut(), y.borrow_mut());
        verdict("refmut", np("refmut ==", || r == s)?)?;
        verdict("refmut", np("refmut ==", || s == r)?)?;
    }
    // other ways to make and copy a buffer
    let z = x.clone();
    ensure!(z == x && *z.borrow() == a[..], "clone", "a copy differs");
    let mut src = a.clone();
    let f = np("from", || Buffer::from(&mut src[..]))?;
    ensure!(*f.borrow() == a[..], "from-contents", "contents taken over from a slice differ");
    let zero = T::of(&vec![0u8; w]);
    ensure!(src.iter().all(|e| *e == zero), "from-source", "the source is not wiped: {src:?}");
    let q = np("zero", || Buffer::<T>::zero(a.len()))?;
    ensure!(q.len() == a.len() && q.borrow().iter().all(|e| *e == zero), "zero", "a zeroed buffer is not zero");
    let q = np("random", || Buffer::<T>::random(a.len()))?;
    ensure!(q.len() == a.len(), "random-length", "length of a random buffer");
    if a.len() * w >= 16 {
        let q2 = Buffer::<T>::random(a.len());
        ensure!(q != q2, "random", "two random buffers are equal");
        ensure!(!q.borrow().iter().all(|e| *e == q.borrow()[0]) || a.len() == 1, "random", "a random buffer repeats itself");
    }
    let s = np("serialise", || bincode::serialize(&x))?.map_err(|e| Failure::new("serialise-refused", e.to_string()))?;
    let d: Buffer<T> = np("deserialise", || bincode::deserialize(&s))?.map_err(|e| Failure::new("deserialise-refused", e.to_string()))?;
    ensure!(d == x && *d.borrow() == a[..], "round-trip", "a serialised buffer differs");
    Ok(Out::new(!same).tag(if a.len() != b.len() { "lengths differ" } else if same { "equal" } else { "one bit differs" }))
}

// ---------------------------------------------------------------------------------------------
// fragments

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    Get(u8),
    Set(u8, u16),
    Clone(u8),
    Drop(u8),
    Zeroize(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: u8,
    strat: u8,
    /// None: alloc_initialized
    distance: Option<u64>,
    ops: Vec<FOp>,
}
fn fcase(_: Tier) -> BoxedStrategy<FCase> {
    let op = prop_oneof![
        3 => any::<u8>().prop_map(FOp::Get),
        3 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| FOp::Set(a, b)),
        2 => any::<u8>().prop_map(FOp::Clone),
        2 => any::<u8>().prop_map(FOp::Drop),
        1 => any::<u8>().prop_map(FOp::Zeroize),
    ];
    let dist = prop_oneof![
        2 => Just(None),
        4 => (0u32..36, any::<u64>()).prop_map(|(b, r)| Some((1u64 << b) + r % (1u64 << b))),
        1 => prop::sample::select(vec![0u64, 1, 4096, 4097, 1 << 23, 0xffffff, 1 << 24, 1 << 32, 1 << 33, u64::MAX]).prop_map(Some),
    ];
    (0u8..5, 0u8..3, dist, prop::collection::vec(op, 0..10)).prop_map(|(ty, strat, distance, ops)| FCase { ty, strat, distance, ops }).boxed()
}
trait Item: Default + Clone + PartialEq + Debug {
    fn of(s: u16) -> Self;
}
impl Item for [u8; 32] {
    fn of(s: u16) -> Self {
        bytes(32, s as u64).try_into().unwrap()
    }
}
impl Item for [u8; 1] {
    fn of(s: u16) -> Self {
        [s as u8]
    }
}
impl Item for u64 {
    fn of(s: u16) -> Self {
        s as u64 * 0x0001_0001_0001_0001
    }
}
impl Item for (String, Vec<u32>) {
    fn of(s: u16) -> Self {
        (format!("text {s}").repeat(3), vec![s as u32; s as usize % 40])
    }
}
#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
struct Wide([u64; 20]);
impl Default for Wide {
    fn default() -> Self {
        Wide([7; 20])
    }
}
impl Item for Wide {
    fn of(s: u16) -> Self {
        Wide([s as u64; 20])
    }
}
fn run_frag(c: &FCase) -> vh::R<Out> {
    match c.ty {
        0 => frag_t::<[u8; 32]>(c),
        1 => frag_t::<[u8; 1]>(c),
        2 => frag_t::<u64>(c),
        3 => frag_t::<(String, Vec<u32>)>(c),
        _ => frag_t::<Wide>(c),
    }
}
fn frag_t<T: Item>(c: &FCase) -> vh::R<Out> {
    let strat = [FragStrategy::Map, FragStrategy::Direct, FragStrategy::Hybrid][c.strat as usize % 3];
    let r = match c.distance {
        None => np("alloc_initialized", || Frag::<T>::alloc_initialized(strat, T::of(1), T::of(2)))?,
        Some(d) => np("alloc_default", || Frag::<T>::alloc_default(strat, d as usize))?,
    };
    let (a, b) = match r {
        Ok(p) => p,
        Err(e) => {
            // distances within what the allocators spread over must work
            ensure!(c.distance.unwrap_or(0) > 4096, "frag-refused", "a distance of {:?} is refused: {e}", c.distance);
            return Ok(Out::new(true).tag("distance refused"));
        }
    };
    let addr = |f: &Frag<T>| f.get().map(|r| r as *const T as usize).unwrap_or(0);
    let d = addr(&a).abs_diff(addr(&b));
    ensure!(d as u64 >= c.distance.unwrap_or(4096), "frag-distance", "fragments are {d} bytes apart instead of {:?}", c.distance);
    let mut pool = match c.distance {
        None => vec![(a, Some(T::of(1))), (b, Some(T::of(2)))],
        Some(_) => vec![(a, Some(T::default())), (b, Some(T::default()))],
    };
    let look = |pool: &Vec<(Frag<T>, Option<T>)>| -> vh::R<()> {
        let mut seen: Vec<usize> = vec![];
        for (f, m) in pool {
            ensure!(f.is_live() == m.is_some(), "frag-live", "is_live says {}", f.is_live());
            match (f.get(), m) {
                (Ok(v), Some(m)) => {
                    // (the compiler takes it for granted that references are aligned)
                    let at = std::hint::black_box(v as *const T as usize);
                    ensure!(at % std::mem::align_of::<T>() == 0, "frag-alignment", "{strat:?}: an object of alignment {} lies at {at:#x}", std::mem::align_of::<T>());
                    ensure!(seen.iter().all(|s| s.abs_diff(at) >= std::mem::size_of::<T>()), "frag-shared", "{strat:?}: two fragments share memory");
                    seen.push(at);
                    ensure!(v == m, "frag-contents", "{v:?} instead of {m:?}")
                }
                (Err(_), None) => {}
                (r, m) => fail!("frag-get", "get is {:?}, expected {m:?}", r.is_ok()),
            }
        }
        Ok(())
    };
    look(&pool)?;
    let mut cloned = false;
    for o in &c.ops {
        let n = pool.len();
        if n == 0 {
            break;
        }
        match o {
            FOp::Get(_) => {}
            FOp::Set(i, s) => {
                let e = &mut pool[*i as usize % n];
                let r = np("set", || e.0.set(T::of(*s)))?;
                ensure!(r.is_ok() == e.1.is_some(), "frag-set", "set of a fragment that is live: {}, {:?}", e.1.is_some(), r.is_ok());
                if e.1.is_some() {
                    e.1 = Some(T::of(*s));
                }
            }
            FOp::Clone(i) => {
                if n < 4 {
                    let k = *i as usize % n;
                    let f = np("clone", || pool[k].0.clone())?;
                    let m = pool[k].1.clone();
                    pool.push((f, m));
                    cloned = true;
                }
            }
            FOp::Drop(i) => {
                let d = pool.remove(*i as usize % n);
                np("drop", move || drop(d))?;
            }
            FOp::Zeroize(i) => {
                let e = &mut pool[*i as usize % n];
                np("zeroize", || e.0.zeroize())?;
                e.1 = None;
            }
        }
        look(&pool)?;
    }
    np("drop", move || drop(pool))?;
    Ok(Out::new(cloned || c.distance.map_or(false, |d| d > 4096)).tag(format!("{strat:?}")).tag_if(cloned, "cloned"))
}

// ---------------------------------------------------------------------------------------------
// what lies in files and in memory

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sh {
    kind: u8,
    pay: Pay,
    ops: Vec<u8>,
}
fn shares(_: Tier) -> BoxedStrategy<Sh> {
    (2..KINDS, (prop_oneof![4 => 8u32..200, 1 => 4000u32..4200], 2u16..6000).prop_map(|(len, s)| Pay { len, s }), prop::collection::vec(0u8..4, 0..4)).prop_map(|(kind, pay, ops)| Sh { kind, pay, ops }).boxed()
}
fn lm_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("XDG_DATA_HOME").unwrap_or_default()).join(".locked_memories")
}
/// name, contents and access rights of the stored files
fn files() -> Vec<(PathBuf, Vec<u8>, u32)> {
    use std::os::unix::fs::MetadataExt;
    let mut v: Vec<_> = std::fs::read_dir(lm_dir())
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| (e.path(), std::fs::read(e.path()).unwrap_or_default(), e.metadata().map(|m| m.mode() & 0o7777).unwrap_or(0o7777)))
        .collect();
    v.sort();
    v
}
fn holds(hay: &[u8], needle: &[u8]) -> Option<usize> {
    // any eight bytes of the payload in a row
    hay.windows(8).position(|w| needle.windows(8).any(|n| n == w))
}
fn run_shares(c: &Sh) -> vh::R<Out> {
    let kn = kind_name(c.kind);
    // a directory of this case only
    let td = vh::TempDir::new();
    let old = std::env::var_os("XDG_DATA_HOME");
    std::env::set_var("XDG_DATA_HOME", td.path());
    let r = run_shares_in(c, kn);
    if let Some(o) = old {
        std::env::set_var("XDG_DATA_HOME", o);
    }
    r
}
fn run_shares_in(c: &Sh, kn: &str) -> vh::R<Out> {
    let p = fit(c.kind, &c.pay).bytes();
    let per = match c.kind {
        2 | 5 => 1,
        4 => 2,
        _ => 0,
    };
    let own = if c.kind >= 3 { OwnMem::open() } else { None };
    let masked: Vec<u8> = p.iter().map(|b| b ^ 0xa5).collect();
    let find = |m: &Option<OwnMem>| -> BTreeSet<usize> { m.as_ref().map(|m| m.find(&masked, 0xa5).into_iter().collect()).unwrap_or_default() };
    let before = find(&own);
    if own.is_some() {
        ensure!(before.contains(&(p.as_ptr() as usize)), "harness", "the memory scan does not find the payload itself");
    }
    let mut live = vec![match np("alloc", || C::alloc(c.kind, &p, p.len()))? {
        Ok(x) => x,
        Err(e) => fail!("alloc-refused", "{kn}: {e}"),
    }];
    let look = |live: &Vec<C>, what: &str, mem: bool| -> vh::R<Vec<Vec<u8>>> {
        let fs = files();
        ensure!(fs.len() == per * live.len(), "file-count", "{kn} after {what}: {} files for {} containers", fs.len(), live.len());
        for (f, b, mode) in &fs {
            ensure!(b.len() == p.len(), "file-length", "{kn} after {what}: a file of {} bytes", b.len());
            if let Some(at) = holds(b, &p) {
                fail!("file-in-clear", "{kn} after {what}: the file holds payload bytes in the clear at {at}");
            }
            ensure!(mode & 0o077 == 0, "file-mode", "{kn} after {what}: {} has mode {mode:o}", f.display());
            ensure!(mode & 0o700 == 0, "file-unlocked", "{kn} after {what}: {} has mode {mode:o} while locked", f.display());
        }
        // masked differently each time
        for i in 0..fs.len() {
            for j in 0..i {
                // copies of a file-backed container share their mask by design
                ensure!(c.kind != 4 || fs[i].1 != fs[j].1, "file-same", "{kn} after {what}: two files are equal");
                if c.kind == 4 && live.len() == 1 {
                    let x: Vec<u8> = fs[i].1.iter().zip(&fs[j].1).map(|(a, b)| a ^ b).collect();
                    ensure!(x != p, "files-combine", "{kn}: the two files alone give the payload");
                }
            }
        }
        if mem {
            let now = find(&own);
            if let Some(at) = now.difference(&before).next() {
                fail!("memory-in-clear", "{kn} after {what}: the payload lies in memory at {at:#x}");
            }
        }
        Ok(fs.into_iter().map(|f| f.1).collect())
    };
    let mut prev = look(&live, "alloc", true)?;
    // unlocking makes copies, so memory is looked at only before the first one
    let mut mem = true;
    for o in &c.ops {
        match o {
            0 => {
                np("refresh", || live[0].refresh())?.map_err(|e| Failure::new("refresh-refused", e.to_string()))?;
                let now = look(&live, "refresh", mem)?;
                if c.kind == 4 || c.kind == 5 {
                    ensure!(now != prev, "refresh-nothing", "{kn}: refreshing left the stored share as it was");
                }
                prev = now;
            }
            1 => {
                // FullFile clones repeat the files of the original under other names
                if c.kind != 4 {
                    let d = np("clone", || live[0].dup())?;
                    live.push(d);
                    prev = look(&live, "clone", mem)?;
                }
            }
            2 => {
                mem = false;
                let v = np("unlock", || live[0].unlock())?.map_err(|e| Failure::new("unlock-refused", e.to_string()))?;
                ensure!(v == p, "contents", "{kn}");
                prev = look(&live, "unlock", false)?;
            }
            _ => {
                mem = false;
                let x = live.pop().unwrap();
                live.push(np("update", || x.update(&p, p.len()))?.map_err(|e| Failure::new("update-refused", e.to_string()))?);
                prev = look(&live, "update", false)?;
            }
        }
    }
    for x in &live {
        let v = np("unlock", || x.unlock())?.map_err(|e| Failure::new("unlock-refused", e.to_string()))?;
        ensure!(v == p, "contents", "{kn}");
    }
    // two containers with the same contents must not look the same
    if per > 0 {
        let before: Vec<Vec<u8>> = files().into_iter().map(|f| f.1).collect();
        let other = C::alloc(c.kind, &p, p.len()).map_err(|e| Failure::new("alloc-refused", e.to_string()))?;
        let fresh: Vec<Vec<u8>> = files().into_iter().map(|f| f.1).collect();
        ensure!(fresh.len() == before.len() + per, "file-count", "{kn}: files of a second container");
        let distinct: BTreeSet<_> = fresh.iter().collect();
        let d0: BTreeSet<_> = before.iter().collect();
        ensure!(distinct.len() == d0.len() + per, "mask-reused", "{kn}: two containers with the same contents store the same bytes");
        drop(other);
    }
    drop(live);
    ensure!(files().is_empty(), "file-left", "{kn}: {} files remain", files().len());
    Ok(Out::new(true).tag(kn).tag_if(own.is_some() && c.kind >= 3, "memory scanned"))
}

// ---------------------------------------------------------------------------------------------
// concurrent use without privileges (the superuser ignores the access rights of files)

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unpriv {
    kind: u8,
    pay: Pay,
    threads: Vec<Vec<u8>>,
    rounds: u8,
}
fn unpriv(_: Tier) -> BoxedStrategy<Unpriv> {
    (prop::sample::select(vec![1u8, 2, 2, 2, 4, 5, 3, 6]), pay(), prop::collection::vec(prop::collection::vec(0u8..5, 1..5), 2..5), 1u8..20)
        .prop_map(|(kind, pay, threads, rounds)| Unpriv { kind, pay, threads, rounds })
        .boxed()
}
fn run_unpriv(c: &Unpriv) -> vh::R<Out> {
    let kn = kind_name(c.kind);
    let p = fit(c.kind, &c.pay).bytes();
    let td = vh::TempDir::new();
    let cp = std::ffi::CString::new(td.path().to_str().unwrap()).unwrap();
    let able = unsafe { libc::geteuid() == 0 && libc::chown(cp.as_ptr(), 65534, 65534) == 0 };
    let old = std::env::var_os("XDG_DATA_HOME");
    std::env::set_var("XDG_DATA_HOME", td.path());
    let end = vh::probe(|| {
        if able {
            unsafe {
                if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                    return b"skip".to_vec();
                }
            }
            if std::fs::create_dir_all(lm_dir()).is_err() {
                return b"skip".to_vec();
            }
        }
        let r = (|| -> Result<(), String> {
            let x = C::alloc(c.kind, &p, p.len()).map_err(|e| format!("alloc: {e}"))?;
            let x = &x;
            let bar = Barrier::new(c.threads.len());
            let rs: Vec<Result<Result<(), String>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = c
                    .threads
                    .iter()
                    .map(|t| {
                        let (bar, p) = (&bar, &p);
                        s.spawn(move || {
                            vh::no_panic(AssertUnwindSafe(|| {
                                bar.wait();
                                for _ in 0..c.rounds {
                                    for a in t {
                                        let v = par_action(x, c.kind, *a).map_err(|e| format!("action {a}: {e}"))?;
                                        if v != *p {
                                            return Err(format!("action {a} yields {} bytes that differ", v.len()));
                                        }
                                    }
                                }
                                Ok(())
                            }))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Ok(Err("thread ended".into())))).collect()
            });
            for r in rs {
                r.map_err(|e| format!("panic: {e}"))??;
            }
            Ok(())
        })();
        match r {
            Ok(()) => vec![],
            Err(e) => e.into_bytes(),
        }
    });
    if let Some(o) = old {
        std::env::set_var("XDG_DATA_HOME", o);
    }
    match end {
        vh::ProbeEnd::Exit(b) if b.is_empty() => Ok(Out::new(true).tag(kn).tag_if(able, "as another user")),
        vh::ProbeEnd::Exit(b) if b == b"skip" => Ok(Out::new(false).tag("not possible here")),
        vh::ProbeEnd::Exit(b) => fail!("concurrent", "{kn}: {}", String::from_utf8_lossy(&b)),
        vh::ProbeEnd::Signal(s) => fail!("concurrent-crash", "{kn}: {}", vh::signal_name(s)),
        vh::ProbeEnd::Panic(m) => fail!("concurrent-panic", "{kn}: {m}"),
    }
}

fn main() {
    vh::main(vec![Property {
        id: "C14",
        level: "exploration",
        assumptions: &["Buffer::alloc has no error to return: its contract is that payload and size agree, and only such calls are made",
            "the plain RAM container keeps its contents unmasked behind access rights by design, so only the split and file-backed containers are searched for payload bytes",
            "memory is searched for the payload before the first unlock, because an unlock makes copies"],
        facets: vec![
            Facet { name: "histories", rule: "a container of any kind and its copies under unlock, clone, drop, refresh, serialise, update, zeroize and concurrent use, all compared with a model after every step; non-trivial = a copy, refresh, round trip, update or concurrent use happened", cases: (16000, 600000), batch: 40, racy: true, strategy: hist, run: run_hist }.boxed(),
            Facet { name: "big", rule: "buffers, RAM and file-backed containers of 0.1 to 5 MiB (thorough 40) unlocked, copied, serialised, updated and compared; non-trivial = always", cases: (120, 3000), batch: 3, racy: false, strategy: big, run: run_big }.boxed(),
            Facet { name: "requests", rule: "allocations, updates and serialised forms with arbitrary lengths and sizes; non-trivial = it had to be refused", cases: (60000, 2000000), batch: 200, racy: false, strategy: request, run: run_request }.boxed(),
            Facet { name: "compare", rule: "typed buffers, their borrows and comparisons between equal, nearly equal and differently long contents; non-trivial = the contents differ", cases: (40000, 1500000), batch: 100, racy: false, strategy: cmp, run: run_cmp }.boxed(),
            Facet { name: "fragments", rule: "pairs of fragments of five types under all strategies and distances, their copies, changes and wiping; non-trivial = a fragment was copied or a distance beyond a page asked for", cases: (20000, 800000), batch: 20, racy: false, strategy: fcase, run: run_frag }.boxed(),
            Facet { name: "shares", rule: "contents, number and access rights of stored files and a search of the own memory for the payload after each step; non-trivial = always", cases: (2000, 50000), batch: 10, racy: false, strategy: shares, run: run_shares }.boxed(),
            Facet { name: "unprivileged", rule: "concurrent unlock, refresh, clone and serialise in a process without superuser rights; non-trivial = it ran", cases: (1200, 40000), batch: 8, racy: true, strategy: unpriv, run: run_unpriv }.boxed(),
        ],
        findings: vec![],
    }])
}
