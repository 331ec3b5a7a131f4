//! C06: the store is a faithful key-value map with expiry.
use chk::{engine::store::Cache, large::Rng, sh::*, *};
use std::{
    collections::BTreeMap,
    time::{Duration, SystemTime},
};
use vh::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Life {
    None,
    Zero,
    Nanos(u32),
    Millis(u8),
    Long,
    Max,
    /// an entry of the table of times, and some nanoseconds more or less
    At(u8, i8),
}
impl Life {
    fn get(&self) -> Option<Duration> {
        match self {
            Life::None => None,
            Life::Zero => Some(Duration::ZERO),
            Life::Nanos(n) => Some(Duration::from_nanos(*n as u64)),
            Life::Millis(m) => Some(Duration::from_millis(*m as u64)),
            Life::Long => Some(Duration::from_secs(100_000)),
            Life::Max => Some(Duration::MAX),
            Life::At(i, d) => Some(time_at(*i, *d)),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert { s: u8, k: u8, p: Pay, life: Life },
    Get { s: u8, k: u8 },
    Delete { s: u8, k: u8 },
    Contains { s: u8, k: u8 },
    Keys { s: u8 },
    Clear { s: u8 },
    /// wait this many milliseconds
    Sleep { ms: u8 },
    /// get_or_insert (cache facet)
    GetOr { s: u8, k: u8, p: Pay, life: Life },
    /// another handle / a round trip through serialisation or a snapshot
    Reload { how: u8 },
    /// the (simulated) clock moves by an entry of the table of times
    Jump { i: u8, d: i8 },
    Back { i: u8, d: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// scan frequency of the cleaner in ms (cache facet)
    scan: Option<u8>,
    /// the same as an entry of the table of times
    #[serde(default)]
    slow: Option<u8>,
    ops: Vec<Op>,
}

fn key(k: u8) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => b"key".to_vec(),
        2 => b"key\0".to_vec(),
        3 => b"key1".to_vec(),
        4 => vec![0xff; 40],
        5 => bytes(1000, 5),
        _ => vec![k],
    }
}

fn life() -> BoxedStrategy<Life> {
    prop_oneof![
        6 => Just(Life::None),
        2 => Just(Life::Zero),
        1 => (1u32..2000).prop_map(Life::Nanos),
        5 => (1u8..12).prop_map(Life::Millis),
        3 => Just(Life::Long),
        1 => Just(Life::Max),
    ]
    .boxed()
}
fn op(ns: u8, nk: u8, sleeps: u32) -> BoxedStrategy<Op> {
    let s = move || 0..ns;
    let k = move || 0..nk;
    prop_oneof![
        10 => (s(), k(), pay(), life()).prop_map(|(s, k, p, life)| Op::Insert { s, k, p, life }),
        5 => (s(), k()).prop_map(|(s, k)| Op::Get { s, k }),
        4 => (s(), k()).prop_map(|(s, k)| Op::Delete { s, k }),
        2 => (s(), k()).prop_map(|(s, k)| Op::Contains { s, k }),
        2 => s().prop_map(|s| Op::Keys { s }),
        1 => s().prop_map(|s| Op::Clear { s }),
        sleeps => (1u8..10).prop_map(|ms| Op::Sleep { ms }),
        2 => (s(), k(), pay(), life()).prop_map(|(s, k, p, life)| Op::GetOr { s, k, p, life }),
        2 => (0u8..4).prop_map(|how| Op::Reload { how }),
    ]
    .boxed()
}
fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 40 } else { 100 };
    let scan = prop_oneof![1 => Just(None), 1 => Just(Some(0u8)), 2 => (1u8..15).prop_map(Some)];
    prop_oneof![
        (scan.clone(), prop::collection::vec(op(2, 3, 3), 1..n)),
        (scan.clone(), prop::collection::vec(op(3, 9, 3), 1..n)),
        (scan, prop::collection::vec(op(1, 6, 1), 1..n)),
    ]
    .prop_map(|(scan, ops)| Case { scan, slow: None, ops })
    .boxed()
}

#[derive(Clone)]
struct Entry {
    v: Vec<u8>,
    /// the expiry lies between these two points
    exp: Option<(SystemTime, SystemTime)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Live,
    Expired,
    Either,
}
impl Entry {
    fn at(&self, t0: SystemTime, t1: SystemTime) -> St {
        match self.exp {
            None => St::Live,
            Some((lo, hi)) => {
                if t1 < lo {
                    St::Live
                } else if t0 >= hi {
                    St::Expired
                } else {
                    St::Either
                }
            }
        }
    }
}
type Model = BTreeMap<Vec<u8>, Entry>;

/// Judges an observed value of a key during [t0, t1].
fn judge(m: &Model, k: &[u8], got: Option<&[u8]>, t0: SystemTime, t1: SystemTime, what: &str) -> vh::R<()> {
    let e = m.get(k);
    let st = e.map(|e| e.at(t0, t1));
    match (e, st, got) {
        (None, _, None) => {}
        (None, _, Some(_)) => fail!("phantom", "{what}: a value for a key that was never inserted or was removed"),
        (Some(e), Some(St::Live), Some(v)) | (Some(e), Some(St::Either), Some(v)) => {
            ensure!(v == e.v, "wrong-value", "{what}: {} bytes that are not the last value", v.len())
        }
        (Some(_), Some(St::Live), None) => fail!("lost", "{what}: a live entry is gone"),
        (Some(_), Some(St::Expired), Some(_)) => fail!("expired-visible", "{what}: the entry has expired but is still returned"),
        _ => {}
    }
    Ok(())
}

fn put(m: &mut Model, k: Vec<u8>, v: Vec<u8>, life: &Life, t0: SystemTime, t1: SystemTime) {
    let exp = life.get().and_then(|d| match (t0.checked_add(d), t1.checked_add(d)) {
        (Some(a), Some(b)) => Some((a, b)),
        _ => None,
    });
    m.insert(k, Entry { v, exp });
}

trait Kv {
    fn insert(&mut self, k: Vec<u8>, v: Vec<u8>, l: Option<Duration>) -> Option<Vec<u8>>;
    fn get(&self, k: &[u8]) -> Option<Vec<u8>>;
    fn delete(&mut self, k: &[u8]) -> Option<Vec<u8>>;
    fn contains(&self, k: &[u8]) -> bool;
    fn keys(&self) -> Vec<Vec<u8>>;
    fn clear(&mut self);
    fn get_or(&mut self, _k: Vec<u8>, _v: Vec<u8>, _l: Option<Duration>) -> Option<Vec<u8>> {
        None
    }
}
impl Kv for Store {
    fn insert(&mut self, k: Vec<u8>, v: Vec<u8>, l: Option<Duration>) -> Option<Vec<u8>> {
        Store::insert(self, k, v, l).expect("insert")
    }
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        Store::get(self, k).expect("get")
    }
    fn delete(&mut self, k: &[u8]) -> Option<Vec<u8>> {
        Store::delete(self, k).expect("delete")
    }
    fn contains(&self, k: &[u8]) -> bool {
        self.contains_key(k).expect("contains")
    }
    fn keys(&self) -> Vec<Vec<u8>> {
        Store::keys(self).expect("keys")
    }
    fn clear(&mut self) {
        Store::clear(self).expect("clear")
    }
}
impl Kv for Cache<Vec<u8>, Vec<u8>> {
    fn insert(&mut self, k: Vec<u8>, v: Vec<u8>, l: Option<Duration>) -> Option<Vec<u8>> {
        Cache::insert(self, k, v, l)
    }
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        Cache::get(self, &k.to_vec()).cloned()
    }
    fn delete(&mut self, k: &[u8]) -> Option<Vec<u8>> {
        self.remove(&k.to_vec())
    }
    fn contains(&self, k: &[u8]) -> bool {
        self.contains_key(&k.to_vec())
    }
    fn keys(&self) -> Vec<Vec<u8>> {
        Cache::keys(self)
    }
    fn clear(&mut self) {
        Cache::clear(self)
    }
    fn get_or(&mut self, k: Vec<u8>, v: Vec<u8>, l: Option<Duration>) -> Option<Vec<u8>> {
        Some(self.get_or_insert(k, || v.clone(), l).clone())
    }
}

/// Applies one operation (not Sleep / Reload) and judges its result.
fn apply(kv: &mut dyn Kv, m: &mut Model, o: &Op, what: &str) -> vh::R<()> {
    let t0 = SystemTime::now();
    match o {
        Op::Insert { k, p, life, .. } => {
            let k = key(*k);
            let old = kv.insert(k.clone(), p.bytes(), life.get());
            let t1 = SystemTime::now();
            judge(m, &k, old.as_deref(), t0, t1, &format!("{what}: previous value"))?;
            put(m, k, p.bytes(), life, t0, t1);
        }
        Op::Get { k, .. } => {
            let k = key(*k);
            let v = kv.get(&k);
            judge(m, &k, v.as_deref(), t0, SystemTime::now(), what)?;
        }
        Op::Delete { k, .. } => {
            let k = key(*k);
            let v = kv.delete(&k);
            judge(m, &k, v.as_deref(), t0, SystemTime::now(), &format!("{what}: removed value"))?;
            m.remove(&k);
        }
        Op::Contains { k, .. } => {
            let k = key(*k);
            let c = kv.contains(&k);
            let v = m.get(&k).map(|e| e.v.clone());
            judge(m, &k, if c { Some(v.as_deref().unwrap_or(b"")) } else { None }, t0, SystemTime::now(), what)?;
        }
        Op::Keys { .. } => {
            let mut ks = kv.keys();
            let t1 = SystemTime::now();
            ks.sort();
            let n = ks.len();
            ks.dedup();
            ensure_eq!(ks.len(), n, "keys-repeated", "{what}: repeated keys");
            for k in &ks {
                let v = m.get(k).map(|e| e.v.clone());
                judge(m, k, Some(v.as_deref().unwrap_or(b"")), t0, t1, what)?;
            }
            for (k, e) in m.iter() {
                if e.at(t0, t1) == St::Live {
                    ensure!(ks.contains(k), "keys-missing", "{what}: a live key is not listed");
                }
            }
        }
        Op::Clear { .. } => {
            kv.clear();
            m.clear();
        }
        Op::GetOr { k, p, life, .. } => {
            let k = key(*k);
            if let Some(v) = kv.get_or(k.clone(), p.bytes(), life.get()) {
                let t1 = SystemTime::now();
                let st = m.get(&k).map(|e| e.at(t0, t1));
                match st {
                    Some(St::Live) => ensure!(v == m[&k].v, "wrong-value", "{what}: not the value of the live entry"),
                    None | Some(St::Expired) => {
                        ensure!(v == p.bytes(), "wrong-value", "{what}: not the inserted value");
                        put(m, k, p.bytes(), life, t0, t1);
                    }
                    Some(St::Either) => {
                        if v == m[&k].v && v != p.bytes() {
                        } else if v == p.bytes() && v != m[&k].v {
                            put(m, k, p.bytes(), life, t0, t1);
                        } else {
                            ensure!(v == p.bytes(), "wrong-value", "{what}: neither value");
                            // undecidable which one it is: drop the entry from both sides
                            kv.delete(&k);
                            m.remove(&k);
                        }
                    }
                }
            }
        }
        Op::Sleep { ms } => std::thread::sleep(Duration::from_millis(*ms as u64)),
        Op::Jump { i, d } => sim::step(time_at(*i, *d).as_nanos() as i128),
        Op::Back { .. } | Op::Reload { .. } => {}
    }
    Ok(())
}

fn all(kv: &mut dyn Kv, m: &mut Model, what: &str) -> vh::R<()> {
    let ks: Vec<Vec<u8>> = (0..9).map(key).collect();
    for k in ks {
        let t0 = SystemTime::now();
        let v = kv.get(&k);
        judge(m, &k, v.as_deref(), t0, SystemTime::now(), &format!("{what}: key {}", hex(&k[..k.len().min(8)])))?;
    }
    apply(kv, m, &Op::Keys { s: 0 }, what)
}

fn store_of(op: &Op) -> Option<u8> {
    match op {
        Op::Insert { s, .. } | Op::Get { s, .. } | Op::Delete { s, .. } | Op::Contains { s, .. } | Op::Keys { s } | Op::Clear { s } | Op::GetOr { s, .. } => Some(*s),
        _ => None,
    }
}

fn tags(c: &Case) -> Out {
    let ins = c.ops.iter().filter(|o| matches!(o, Op::Insert { .. })).count();
    let obs = c.ops.iter().filter(|o| matches!(o, Op::Get { .. } | Op::Keys { .. } | Op::Delete { .. } | Op::Contains { .. })).count();
    let timed = c.ops.iter().any(|o| matches!(o, Op::Insert { life: Life::Millis(_) | Life::Zero | Life::Nanos(_), .. }));
    let slept = c.ops.iter().any(|o| matches!(o, Op::Sleep { .. }));
    let rel = c.ops.iter().any(|o| matches!(o, Op::Reload { .. }));
    Out::new(ins > 1 && obs > 0).tag_if(timed && slept, "timed").tag_if(rel, "reload").tag_if(c.scan.is_some(), "scanner")
}

/// client stores of one instance (0, 1) and the instance's own store (2)
fn run_store(c: &Case) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let path = SnapshotPath::from_path(dir.path().join("s"));
    let kp = || KeyProvider::try_from(vec![9u8; 32]).unwrap();
    let mut hold = Stronghold::default();
    let mut stores: Vec<Store> =
        vec![hold.create_client("a").unwrap().store(), hold.create_client("b").unwrap().store(), hold.store()];
    let mut models = vec![Model::new(), Model::new(), Model::new()];
    for (i, o) in c.ops.iter().enumerate() {
        let what = format!("op {i} {o:?}");
        match store_of(o) {
            Some(s) => apply(&mut stores[s as usize], &mut models[s as usize], o, &what)?,
            None => match o {
                Op::Reload { how: 0 } => {
                    for (n, s) in ["a", "b"].iter().zip(0..) {
                        stores[s] = hold.get_client(n).unwrap().store();
                    }
                    stores[2] = hold.store();
                }
                Op::Reload { how: 1 } => {
                    for s in 0..3 {
                        stores[s] = stores[s].clone();
                    }
                }
                Op::Reload { .. } => {
                    let e = |x: ClientError| vh::Failure::new("snapshot", format!("{what}: {x}"));
                    hold.commit_with_keyprovider(&path, &kp()).map_err(e)?;
                    hold = Stronghold::default();
                    hold.load_snapshot(&kp(), &path).map_err(e)?;
                    for (n, s) in ["a", "b"].iter().zip(0..) {
                        stores[s] = hold.load_client(n).map_err(e)?.store();
                    }
                    stores[2] = hold.store();
                    models[2].clear(); // the instance's own store is a session store
                }
                Op::Back { i, d } => {
                    for s in 0..3 {
                        forget(&mut stores[s], &mut models[s]);
                    }
                    sim::step(-(time_at(*i, *d).as_nanos() as i128));
                }
                o => apply(&mut stores[0], &mut models[0], o, &what)?,
            },
        }
        if i % 8 == 7 || i + 1 == c.ops.len() {
            for s in 0..3 {
                all(&mut stores[s], &mut models[s], &format!("after {what}, store {s}"))?;
            }
        }
    }
    Ok(tags(c))
}

fn run_cache(c: &Case) -> vh::R<Out> {
    let mk = || match (c.scan, c.slow) {
        (_, Some(i)) => Cache::create_with_scanner(time_at(i, 0)),
        (None, _) => Cache::new(),
        (Some(ms), _) => Cache::create_with_scanner(Duration::from_millis(ms as u64)),
    };
    let mut caches: Vec<Cache<Vec<u8>, Vec<u8>>> = vec![mk(), mk(), mk()];
    let mut models = vec![Model::new(), Model::new(), Model::new()];
    for (i, o) in c.ops.iter().enumerate() {
        let what = format!("op {i} {o:?} (scan {:?})", c.scan);
        match store_of(o) {
            Some(s) => apply(&mut caches[s as usize], &mut models[s as usize], o, &what)?,
            None => match o {
                Op::Reload { how } => {
                    for (ca, m) in caches.iter_mut().zip(models.iter_mut()) {
                        let n: Cache<Vec<u8>, Vec<u8>> = match how {
                            0 => ca.clone(),
                            1 => {
                                let b = bincode::serialize(ca).map_err(|e| vh::Failure::new("serialize", e.to_string()))?;
                                bincode::deserialize(&b).map_err(|e| vh::Failure::new("deserialize", e.to_string()))?
                            }
                            _ => {
                                let s = Store::default();
                                s.reload(std::mem::take(ca)).unwrap();
                                let b = bincode::serialize(&s).map_err(|e| vh::Failure::new("serialize", e.to_string()))?;
                                let mut s: Store = bincode::deserialize(&b).map_err(|e| vh::Failure::new("deserialize", e.to_string()))?;
                                all(&mut s, m, &format!("{what}: store"))?;
                                bincode::deserialize(&b).map_err(|e| vh::Failure::new("deserialize", e.to_string()))?
                            }
                        };
                        *ca = n;
                    }
                }
                Op::Back { i, d } => {
                    for s in 0..3 {
                        forget(&mut caches[s], &mut models[s]);
                    }
                    sim::step(-(time_at(*i, *d).as_nanos() as i128));
                }
                o => apply(&mut caches[0], &mut models[0], o, &what)?,
            },
        }
        if i % 8 == 7 || i + 1 == c.ops.len() {
            for s in 0..3 {
                all(&mut caches[s], &mut models[s], &format!("after {what}, cache {s}"))?;
            }
        }
    }
    Ok(tags(c))
}

// ---------------------------------------------------------------- many entries

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    /// None: a store; otherwise a cache with this scan frequency (0: none)
    scan: Option<u8>,
    keys: u16,
    n: u16,
    seed: u32,
    /// of 16 entries this many expire
    expiring: u8,
    long: bool,
}
fn crowd(t: Tier) -> BoxedStrategy<Crowd> {
    let n = if t == Tier::Quick { 2500 } else { 10000 };
    (prop::option::weighted(0.6, 0u8..15), prop_oneof![20u16..200, 200u16..3000], 50u16..n, any::<u32>(), 0u8..17, prop::bool::weighted(0.2))
        .prop_map(|(scan, keys, n, seed, expiring, long)| Crowd { scan, keys, n, seed, expiring, long })
        .boxed()
}
fn crowd_run(c: &Crowd) -> vh::R<Out> {
    let mut kv: Box<dyn Kv> = match c.scan {
        None => Box::new(Store::default()),
        Some(0) => Box::new(Cache::new()),
        Some(ms) => Box::new(Cache::create_with_scanner(Duration::from_millis(ms as u64))),
    };
    let mut m = Model::new();
    let mut g = Rng(c.seed as u64);
    let key = |k: u64| match k % 3 {
        0 => k.to_be_bytes().to_vec(),
        1 => format!("key {k}").into_bytes(),
        _ => bytes(1 + k as usize % 60, k),
    };
    let (mut lived, mut died) = (0, 0);
    for i in 0..c.n {
        let k = key(g.below(c.keys as u64));
        let kind = g.below(1000);
        let what = format!("op {i} ({kind}) of {c:?}");
        let t0 = SystemTime::now();
        match kind {
            0..=699 => {
                let len = if c.long && g.below(50) == 0 { 65_530 + g.below(10) } else { g.below(40) };
                let v = bytes(len as usize, g.next());
                let life = match g.below(16) < c.expiring as u64 {
                    true => match g.below(8) {
                        0 => Life::Zero,
                        1 | 2 => Life::Long,
                        x => Life::Millis((x * 9) as u8),
                    },
                    false => Life::None,
                };
                let old = kv.insert(k.clone(), v.clone(), life.get());
                let t1 = SystemTime::now();
                judge(&m, &k, old.as_deref(), t0, t1, &format!("{what}: previous value"))?;
                put(&mut m, k, v, &life, t0, t1);
            }
            700..=899 => {
                let v = kv.get(&k);
                judge(&m, &k, v.as_deref(), t0, SystemTime::now(), &what)?;
            }
            900..=979 => {
                let v = kv.delete(&k);
                judge(&m, &k, v.as_deref(), t0, SystemTime::now(), &format!("{what}: removed value"))?;
                m.remove(&k);
            }
            980..=989 => apply(&mut *kv, &mut m, &Op::Keys { s: 0 }, &what)?,
            990 if c.seed % 4 == 0 => apply(&mut *kv, &mut m, &Op::Clear { s: 0 }, &what)?,
            991..=995 => std::thread::sleep(Duration::from_millis(g.below(20))),
            _ => {
                let t = SystemTime::now();
                lived += m.values().filter(|e| e.exp.is_some() && e.at(t, t) == St::Live).count();
                died += m.values().filter(|e| e.at(t, t) == St::Expired).count();
            }
        }
    }
    for last in 0..2 {
        for k in m.keys() {
            let t0 = SystemTime::now();
            let v = kv.get(k);
            judge(&m, k, v.as_deref(), t0, SystemTime::now(), &format!("at the end ({last}) of {c:?}"))?;
        }
        apply(&mut *kv, &mut m, &Op::Keys { s: 0 }, &format!("at the end ({last}) of {c:?}"))?;
        std::thread::sleep(Duration::from_millis(25));
    }
    Ok(Out::new(m.len() > 32).tag_if(m.len() > 256, "more than 256 entries").tag_if(lived > 0 && died > 0, "some expired, some not yet").tag_if(c.scan.map_or(false, |s| s > 0), "scanner"))
}

// ---------------------------------------------------------------- years

/// The clock of a thread, simulated while asked for: it starts anywhere, jumps, and moves on by a nanosecond per look.
mod sim {
    use std::cell::Cell;
    thread_local! {
        static NOW: Cell<Option<i128>> = const { Cell::new(None) };
    }
    pub fn start(t: i128) {
        NOW.with(|n| n.set(Some(t)));
    }
    pub fn step(d: i128) {
        NOW.with(|n| n.set(n.get().map(|t| (t + d).max(1))));
    }
    pub fn stop() {
        NOW.with(|n| n.set(None));
    }
    /// # Safety
    /// as clock_gettime
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
        let wall = [libc::CLOCK_REALTIME, libc::CLOCK_REALTIME_COARSE, libc::CLOCK_MONOTONIC, libc::CLOCK_MONOTONIC_COARSE, libc::CLOCK_MONOTONIC_RAW, libc::CLOCK_BOOTTIME, libc::CLOCK_TAI];
        match NOW.try_with(|n| n.get()).ok().flatten() {
            Some(t) if wall.contains(&id) => {
                NOW.with(|n| n.set(Some(t + 1)));
                (*ts).tv_sec = (t / 1_000_000_000) as _;
                (*ts).tv_nsec = (t % 1_000_000_000) as _;
                0
            }
            _ => libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int,
        }
    }
}
const TIMES: u8 = 64;
fn time_at(i: u8, d: i8) -> Duration {
    const DAY: u64 = 86_400;
    let ns = match i % TIMES {
        // powers of two of nanoseconds, microseconds, milliseconds and seconds
        x @ 0..=7 => 1i128 << (x * 4 + 31),
        x @ 8..=19 => (1i128 << [15, 16, 24, 31, 32, 33, 40, 41, 42, 43, 44, 45][x as usize - 8]) * 1000,
        x @ 20..=31 => (1i128 << [7, 8, 15, 16, 24, 31, 32, 33, 34, 35, 36, 37][x as usize - 20]) * 1_000_000,
        x @ 32..=43 => (1i128 << [0, 3, 7, 8, 12, 15, 16, 20, 24, 31, 32, 33][x as usize - 32]) * 1_000_000_000,
        x => [1, 59, 60, 61, 1000, 3599, 3600, DAY - 1, DAY, 7 * DAY, 30 * DAY, 31 * DAY, 49 * DAY, 50 * DAY, 365 * DAY, 366 * DAY, 1000 * DAY, 3650 * DAY, 24_855 * DAY, 36_500 * DAY][x as usize - 44] as i128 * 1_000_000_000,
    };
    let ns = (ns + d as i128 * if d % 2 == 0 { 1 } else { 1_000_000 }).max(0) as u128;
    Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Years {
    store: bool,
    /// when it begins (seconds since 1970)
    begin: u64,
    case: Case,
}
fn years(t: Tier) -> BoxedStrategy<Years> {
    let n = if t == Tier::Quick { 30 } else { 80 };
    let at = || (0..TIMES, prop_oneof![2 => Just(0i8), 1 => any::<i8>()]);
    let life = move || prop_oneof![2 => Just(Life::None), 7 => at().prop_map(|(i, d)| Life::At(i, d)), 1 => life()];
    // few times that occur again and again, so that the clock stops near the end of a lifetime
    let times = prop::collection::vec(at(), 1..4);
    let ops = times.prop_flat_map(move |ts| {
        let again = move || prop::sample::select(ts.clone());
        let (a, b) = (again.clone(), again.clone());
        let life = prop_oneof![5 => a().prop_map(|(i, d)| Life::At(i, d)), 4 => life()];
        prop::collection::vec(
            prop_oneof![
                5 => (0u8..3, 0u8..5, pay(), life).prop_map(|(s, k, p, life)| Op::Insert { s, k, p, life }),
                8 => op(3, 5, 1).prop_filter("no waiting", |o| !matches!(o, Op::Sleep { .. })),
                4 => (b(), any::<i8>()).prop_map(|((i, _), d)| Op::Jump { i, d }),
                2 => at().prop_map(|(i, d)| Op::Jump { i, d }),
                1 => at().prop_map(|(i, d)| Op::Back { i, d }),
            ],
            2..n,
        )
    });
    let begin = prop_oneof![4 => Just(1_760_000_000u64), 1 => Just((1 << 31) - 100), 1 => Just((1 << 32) - 100), 1 => Just(100_000), 1 => (1u64 << 31)..(1u64 << 33)];
    (any::<bool>(), begin, prop::option::weighted(0.6, 0..TIMES), ops).prop_map(|(store, begin, slow, ops)| Years { store, begin, case: Case { scan: None, slow, ops } }).boxed()
}
/// What has expired may have been removed or not when the clock goes back.
fn forget(kv: &mut dyn Kv, m: &mut Model) {
    let t = SystemTime::now();
    let gone: Vec<Vec<u8>> = m.iter().filter(|(_, e)| e.at(t, t) != St::Live).map(|(k, _)| k.clone()).collect();
    for k in gone {
        kv.delete(&k);
        m.remove(&k);
    }
}
fn run_years(c: &Years) -> vh::R<Out> {
    sim::start(c.begin as i128 * 1_000_000_000);
    let r = vh::no_panic(std::panic::AssertUnwindSafe(|| if c.store { run_store(&c.case) } else { run_cache(&c.case) }));
    sim::stop();
    let out = match r {
        Ok(r) => r?,
        Err(p) => fail!("panic", "{p}"),
    };
    let has = |f: fn(&Op) -> bool| c.case.ops.iter().any(f);
    Ok(Out::new(has(|o| matches!(o, Op::Jump { .. })) && has(|o| matches!(o, Op::Insert { life: Life::At(..), .. })))
        .tag(if c.store { "store" } else { "cache" })
        .tag_if(has(|o| matches!(o, Op::Back { .. })), "clock set back")
        .tag_if(c.case.slow.is_some() && !c.store, "scanner")
        .tag_if(out.nontrivial, "several entries"))
}

fn main() {
    vh::main(vec![Property {
        id: "C06",
        level: "exploration",
        assumptions: &["the system clock does not step backwards during a case of the facets other than years (wall-clock times bracket every call, so slow runs only make the oracle more lenient)"],
        facets: vec![
            Facet { name: "years", rule: "the same histories under a simulated clock that jumps by up to centuries (lifetimes and jumps around powers of two of every unit and around calendar lengths) and is now and then set back; non-trivial = a jump and an entry with such a lifetime", cases: (12000, 400000), batch: 100, racy: false, strategy: years, run: run_years }.boxed(),
            Facet { name: "many", rule: "long random histories over up to 3000 keys of a store or a cache, with and without lifetimes and a cleaner; non-trivial = more than 32 entries at the end", cases: (250, 6000), batch: 10, racy: false, strategy: crowd, run: crowd_run }.boxed(),
            Facet { name: "store", rule: "histories over the stores of two clients and the instance with lifetimes and snapshot round trips; non-trivial = at least two inserts and one observation", cases: (4000, 60000), batch: 20, racy: false, strategy, run: run_store }.boxed(),
            Facet { name: "cache", rule: "histories over three engine caches with cleaner frequencies and serialisation round trips; non-trivial = at least two inserts and one observation", cases: (5000, 80000), batch: 20, racy: false, strategy, run: run_cache }.boxed(),
        ],
        findings: vec![],
    }])
}
