//! Histories of the client registry, the in-memory snapshot and snapshot files, with a reference model.
use crate::{sh::*, *};
use sh::procedures::*;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
    time::{Duration, SystemTime},
};

pub const NP: u8 = 3;
pub const NF: u8 = 4;
pub const NK: u8 = 4;

pub fn client_path(i: u8) -> Vec<u8> {
    match i % NP {
        0 => b"client".to_vec(),
        1 => vec![],
        _ => bytes(150, 4242),
    }
}
pub fn provider(k: u8) -> KeyProvider {
    match k % NK {
        0 | 1 => KeyProvider::try_from(bytes(32, 900 + (k % NK) as u64)).expect("key provider"),
        2 => KeyProvider::with_passphrase_hashed_blake2b(b"passphrase".to_vec()).expect("key provider"),
        _ => KeyProvider::with_passphrase_truncated(b"another passphrase that is long enough".to_vec()).expect("key provider"),
    }
}
fn store_key(k: u8) -> Vec<u8> {
    match k % 4 {
        0 => b"key".to_vec(),
        1 => vec![],
        2 => bytes(300, 3),
        _ => b"key2".to_vec(),
    }
}
fn key_location(l: u8) -> Location {
    match l % 4 {
        0 => Location::generic("keyvault", "key"),
        1 => Location::counter("keyvault", 0usize),
        2 => Location::generic(client_path(0), "key"),
        _ => Location::generic("keyvault", "other"),
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ttl {
    None,
    Long,
    Ms(u8),
}
/// A client handle: the registered one of a path, or one kept from before.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum H {
    Of(u8),
    Old(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { c: u8 },
    Get { c: u8 },
    LoadMem { c: u8 },
    LoadFile { c: u8, f: u8, k: u8 },
    Unload { h: H },
    WriteClient { c: u8 },
    Purge { h: H },
    Commit { f: u8, k: u8 },
    CommitStored { f: u8 },
    StoreKey { k: u8, l: u8 },
    LoadSnap { f: u8, k: u8 },
    Clear,
    /// goes on with what `reset` returns
    Reset,
    Damage { f: u8, how: u8, at: u32 },
    Secret { h: H, l: Loc, p: Pay, proc_: bool },
    Revoke { h: H, l: Loc, gc: bool },
    Put { h: H, k: u8, p: Pay, ttl: Ttl },
    Del { h: H, k: u8 },
    Instance { k: u8, p: Option<Pay> },
    Wait { ms: u8 },
    /// a fresh instance must read the same from this file
    Verify { f: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Content,
    Registry,
    Timed,
}
pub fn op(m: Mode) -> BoxedStrategy<Op> {
    let c = || 0..NP;
    let h = || prop_oneof![6 => (0..NP).prop_map(H::Of), 1 => any::<u8>().prop_map(H::Old)];
    // mostly one file and key, so that most loads are of the right ones
    let f = || prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => 2..NF];
    let k = || prop_oneof![8 => Just(0u8), 1 => 1..NK];
    let l = || loc(2, 3);
    let big = move || -> BoxedStrategy<Pay> {
        if m == Mode::Content {
            prop_oneof![20 => pay(), 1 => (10_000u32..120_000, any::<u16>()).prop_map(|(len, s)| Pay { len, s: s % 5000 })].boxed()
        } else {
            pay()
        }
    };
    let ttl = match m {
        Mode::Timed => prop_oneof![1 => Just(Ttl::None), 1 => Just(Ttl::Long), 4 => (10u8..60).prop_map(Ttl::Ms)].boxed(),
        _ => prop_oneof![3 => Just(Ttl::None), 1 => Just(Ttl::Long)].boxed(),
    };
    let (content, life) = if m == Mode::Registry { (1, 3) } else { (4, 1) };
    prop_oneof![
        6 * content => (h(), l(), big(), any::<bool>()).prop_map(|(h, l, p, proc_)| Op::Secret { h, l, p, proc_ }),
        2 * content => (h(), l(), any::<bool>()).prop_map(|(h, l, gc)| Op::Revoke { h, l, gc }),
        4 * content => (h(), 0u8..4, big(), ttl).prop_map(|(h, k, p, ttl)| Op::Put { h, k, p, ttl }),
        content => (h(), 0u8..4).prop_map(|(h, k)| Op::Del { h, k }),
        4 + 2 * life => c().prop_map(|c| Op::Create { c }),
        life => c().prop_map(|c| Op::Get { c }),
        8 + 2 * life => c().prop_map(|c| Op::LoadMem { c }),
        6 + 2 * life => (c(), f(), k()).prop_map(|(c, f, k)| Op::LoadFile { c, f, k }),
        8 + life => h().prop_map(|h| Op::Unload { h }),
        3 + life => c().prop_map(|c| Op::WriteClient { c }),
        2 * life => h().prop_map(|h| Op::Purge { h }),
        10 => (f(), k()).prop_map(|(f, k)| Op::Commit { f, k }),
        4 + life => f().prop_map(|f| Op::CommitStored { f }),
        3 + life => (k(), 0u8..4).prop_map(|(k, l)| Op::StoreKey { k, l }),
        5 => (f(), k()).prop_map(|(f, k)| Op::LoadSnap { f, k }),
        2 => prop_oneof![2 => Just(Op::Clear), 1 => Just(Op::Reset)],
        life => (f(), 0u8..5, any::<u32>()).prop_map(|(f, how, at)| Op::Damage { f, how, at }),
        1 => (0u8..4, prop::option::of(pay())).prop_map(|(k, p)| Op::Instance { k, p }),
        if m == Mode::Timed { 6 } else { 1 } => (5u8..40).prop_map(move |ms| if m == Mode::Timed { Op::Wait { ms } } else { Op::Verify { f: ms % 2 } }),
        3 => f().prop_map(|f| Op::Verify { f }),
    ]
    .boxed()
}
/// Whole cycles of writing and loading back, mixed with single operations.
pub fn history(m: Mode, n: usize) -> BoxedStrategy<Vec<Op>> {
    let one = || op(m).prop_map(|o| vec![o]);
    let c = || 0..NP;
    let f = || prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)];
    let k = || prop_oneof![6 => Just(0u8), 1 => 1..NK];
    let fill = move |c: u8| {
        let h = H::Of(c);
        prop_oneof![
            3 => (loc(2, 3), pay(), any::<bool>()).prop_map(move |(l, p, proc_)| Op::Secret { h, l, p, proc_ }),
            1 => (loc(2, 3), any::<bool>()).prop_map(move |(l, gc)| Op::Revoke { h, l, gc }),
            2 => (0u8..4, pay(), if m == Mode::Timed { (20u8..80).prop_map(Ttl::Ms).boxed() } else { prop_oneof![Just(Ttl::None), Just(Ttl::Long)].boxed() })
                .prop_map(move |(k, p, ttl)| Op::Put { h, k, p, ttl }),
        ]
    };
    let create = c().prop_flat_map(move |c| (prop::collection::vec(fill(c), 1..5), any::<bool>()).prop_map(move |(mut v, w)| {
        v.insert(0, Op::Create { c });
        if w {
            v.push(Op::WriteClient { c })
        }
        v
    }));
    let cycle = (c(), f(), k(), 0u8..5, op(m), any::<bool>()).prop_map(|(c, f, k, how, extra, wait)| {
        let mut v = vec![];
        let h = H::Of(c);
        match how {
            0 => v.extend([Op::Commit { f, k }, extra, Op::Unload { h }, Op::LoadFile { c, f, k }]),
            1 => v.extend([Op::Commit { f, k }, Op::Unload { h }, extra, Op::LoadSnap { f, k }, Op::LoadMem { c }]),
            2 => v.extend([Op::WriteClient { c }, extra, Op::Unload { h }, Op::LoadMem { c }]),
            3 => v.extend([Op::StoreKey { k, l: f }, extra, Op::CommitStored { f }, Op::Unload { h }, Op::LoadFile { c, f, k }]),
            _ => v.extend([Op::Purge { h }, Op::Commit { f, k }, extra, Op::LoadSnap { f, k }, Op::LoadMem { c }]),
        }
        if wait {
            v.push(Op::Wait { ms: if how > 1 { 5 } else { 25 } })
        }
        v
    });
    let seg = if m == Mode::Registry { prop_oneof![10 => one(), 3 => create, 2 => cycle].boxed() } else { prop_oneof![8 => one(), 3 => create, 3 => cycle].boxed() };
    prop::collection::vec(seg, 2..n)
        .prop_map(move |v| v.into_iter().flatten().filter(|o| m == Mode::Timed || !matches!(o, Op::Wait { .. })).collect())
        .boxed()
}

#[derive(Clone)]
pub enum Sec {
    Live(Vec<u8>),
    Revoked,
}
#[derive(Clone)]
pub struct Entry {
    pub v: Vec<u8>,
    pub exp: Option<(SystemTime, SystemTime)>,
}
#[derive(Clone, Default)]
pub struct Cl {
    pub secrets: BTreeMap<Loc, Sec>,
    pub vaults: BTreeSet<u8>,
    pub store: BTreeMap<Vec<u8>, Entry>,
}
impl Cl {
    pub fn is_empty(&self) -> bool {
        self.secrets.is_empty() && self.store.is_empty()
    }
}

/// Everything observable about a client, compared with the model.
pub fn check_client(c: &Client, m: &Cl, what: &str) -> vh::R<()> {
    for v in 0..2u8 {
        for r in 0..3u8 {
            let l = Loc { v, r };
            match m.secrets.get(&l) {
                Some(Sec::Live(x)) => check_secret(c, &l.get(), Some(x), what)?,
                _ => check_secret(c, &l.get(), None, what)?,
            }
        }
        let ex = c.vault_exists(vault_path(v)).map_err(|e| vh::Failure::new("vault-exists", format!("{what}: {e}")))?;
        if m.vaults.contains(&v) {
            ensure!(ex, "vault-missing", "{what}: vault {v} is reported not to exist");
        } else if ex {
            fail!("vault-phantom", "{what}: vault {v} is reported to exist")
        }
    }
    check_store(&c.store(), &m.store, what)
}
pub fn check_store(s: &Store, m: &BTreeMap<Vec<u8>, Entry>, what: &str) -> vh::R<()> {
    let e = |e: ClientError| vh::Failure::new("store-error", e.to_string());
    let t0 = SystemTime::now();
    let mut got = vec![];
    for k in 0..4u8 {
        let k = store_key(k);
        let v = s.get(&k).map_err(e)?;
        let c = s.contains_key(&k).map_err(e)?;
        got.push((k, v, c));
    }
    let keys = s.keys().map_err(e)?;
    let t1 = SystemTime::now();
    for (k, v, c) in got {
        let x = m.get(&k);
        let (may, must) = match x {
            None => (false, false),
            Some(Entry { exp: None, .. }) => (true, true),
            Some(Entry { exp: Some((lo, hi)), .. }) => (t0 < *hi, t1 < *lo),
        };
        let listed = keys.contains(&k);
        match &v {
            Some(v) => {
                ensure!(may, "store-phantom", "{what}: the store has a value of {} bytes for key {} but must not{}", v.len(), hex(&k[..k.len().min(8)]), if x.is_some() { " (expired)" } else { "" });
                ensure!(*v == x.unwrap().v, "store-value", "{what}: wrong value for key {}", hex(&k[..k.len().min(8)]));
            }
            None => ensure!(!must, "store-lost", "{what}: the value of key {} is gone", hex(&k[..k.len().min(8)])),
        }
        if must {
            ensure!(c && listed, "store-lists", "{what}: a live key is not listed (contains {c}, keys {listed})");
        }
        if !may {
            ensure!(!c && !listed, "store-lists", "{what}: an absent key is listed (contains {c}, keys {listed})");
        }
    }
    ensure!(keys.len() <= 4, "store-lists", "{what}: {} keys are listed", keys.len());
    Ok(())
}

#[derive(Clone)]
enum FileSt {
    Missing,
    Good { key: u8, states: BTreeMap<u8, Cl> },
    Bad,
    Dir,
}

struct World {
    hold: Stronghold,
    /// a clone, used in turn
    twin: Stronghold,
    dir: vh::TempDir,
    handles: Vec<(u8, Client, Cl)>,
    reg: BTreeMap<u8, usize>,
    snap: BTreeMap<u8, Cl>,
    files: Vec<FileSt>,
    key_loc: Option<u8>,
    stored: Option<u8>,
    /// the in-memory snapshot, and with it the stored key, was replaced
    lost: bool,
    instance: BTreeMap<Vec<u8>, Entry>,
    tags: BTreeSet<String>,
}
impl World {
    fn path(&self, f: u8) -> PathBuf {
        match f % NF {
            0 => self.dir.path().join("a.snapshot"),
            1 => self.dir.path().join("b"),
            2 => self.dir.path().join("new/sub/dir/c.stronghold"),
            _ => self.dir.path().join("folder"),
        }
    }
    fn sp(&self, f: u8) -> SnapshotPath {
        SnapshotPath::from_path(self.path(f))
    }
    fn handle(&self, h: H) -> Option<usize> {
        match h {
            H::Of(c) => self.reg.get(&(c % NP)).copied(),
            H::Old(n) if !self.handles.is_empty() => Some(n as usize % self.handles.len()),
            _ => None,
        }
    }
    fn register(&mut self, c: u8, client: Client, m: Cl) -> usize {
        self.handles.push((c, client, m));
        self.reg.insert(c, self.handles.len() - 1);
        self.handles.len() - 1
    }
    fn snap_live(&mut self) {
        for (c, i) in self.reg.clone() {
            let m = self.handles[i].2.clone();
            self.snap.insert(c, m);
        }
    }
    fn tag(&mut self, t: impl Into<String>) {
        self.tags.insert(t.into());
    }
}

/// What a load of a file must give.
enum Load {
    Ok(BTreeMap<u8, Cl>),
    Missing,
    Err,
}
fn predict_load(w: &World, f: u8, k: u8) -> Load {
    match &w.files[(f % NF) as usize] {
        FileSt::Missing => Load::Missing,
        FileSt::Good { key, states } if *key == k % NK => Load::Ok(states.clone()),
        _ => Load::Err,
    }
}

pub fn run(case: &Case) -> vh::R<Out> {
    let hold = Stronghold::default();
    let mut w = World {
        twin: hold.clone(),
        hold,
        dir: vh::TempDir::new(),
        handles: vec![],
        reg: BTreeMap::new(),
        snap: BTreeMap::new(),
        files: vec![FileSt::Missing; NF as usize],
        key_loc: None,
        stored: None,
        lost: false,
        instance: BTreeMap::new(),
        tags: BTreeSet::new(),
    };
    std::fs::create_dir(w.dir.path().join("folder")).unwrap();
    w.files[3] = FileSt::Dir;
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("op {i} {op:?}");
        step(&mut w, op, &what)?;
        if i % 3 == 1 {
            std::mem::swap(&mut w.hold, &mut w.twin);
        }
        check_registry(&w, &what)?;
    }
    finish(&mut w)?;
    let nt = w.tags.iter().any(|t| t.starts_with("loaded"));
    let mut o = Out::new(nt);
    for t in w.tags {
        o = o.tag(t)
    }
    Ok(o)
}

fn check_registry(w: &World, what: &str) -> vh::R<()> {
    for c in 0..NP {
        match (w.hold.get_client(client_path(c)), w.reg.get(&c)) {
            (Ok(got), Some(i)) => {
                ensure!(got.id() == w.handles[*i].1.id(), "client-id", "{what}: client {c} has another id");
                check_client(&got, &w.handles[*i].2, &format!("{what}: client {c}"))?
            }
            (Err(ClientError::ClientDataNotPresent), None) => {}
            (Err(e), None) => fail!("error-kind", "{what}: get_client of an absent client: {e:?}"),
            (Ok(_), None) => fail!("registry-phantom", "{what}: client {c} is loaded but must not be"),
            (Err(e), Some(_)) => fail!("registry-lost", "{what}: client {c} is loaded but get_client gives {e:?}"),
        }
    }
    Ok(())
}

fn verify_file(w: &mut World, f: u8, what: &str) -> vh::R<()> {
    let sp = w.sp(f);
    let FileSt::Good { key, states } = w.files[(f % NF) as usize].clone() else { return Ok(()) };
    let fresh = Stronghold::default();
    fresh.load_snapshot(&provider(key), &sp).map_err(|e| vh::Failure::new("file-unreadable", format!("{what}: file {f}: {e}")))?;
    for c in 0..NP {
        match (fresh.load_client(client_path(c)), states.get(&c)) {
            (Ok(cl), Some(m)) => check_client(&cl, m, &format!("{what}: client {c} of file {f} in a fresh instance"))?,
            (Err(ClientError::ClientDataNotPresent), None) => {}
            (Err(e), None) => fail!("error-kind", "{what}: load of client {c}, not in file {f}: {e:?}"),
            (Ok(_), None) => fail!("file-phantom", "{what}: file {f} has client {c} but must not"),
            (Err(e), Some(_)) => fail!("file-lost", "{what}: client {c} of file {f}: {e:?}"),
        }
    }
    if !states.is_empty() {
        w.tag("file verified");
    }
    Ok(())
}

fn finish(w: &mut World) -> vh::R<()> {
    // kept handles that are not registered any more still are what they were
    for (i, (c, cl, m)) in w.handles.iter().enumerate() {
        check_client(cl, m, &format!("at the end: handle {i} of client {c}"))?;
    }
    check_store(&w.hold.store(), &w.instance, "at the end: instance store")?;
    for f in 0..NF {
        verify_file(w, f, "at the end")?;
    }
    // the in-memory snapshot
    for c in 0..NP {
        if let Some(i) = w.reg.remove(&c) {
            let cl = w.handles[i].1.clone();
            w.hold.unload_client(cl).map_err(|e| vh::Failure::new("unload", format!("at the end: {e}")))?;
        }
        match (w.hold.load_client(client_path(c)), w.snap.get(&c)) {
            (Ok(cl), Some(m)) => check_client(&cl, m, &format!("at the end: client {c} of the in-memory snapshot"))?,
            (Err(ClientError::ClientDataNotPresent), None) => {}
            (Err(e), None) => fail!("error-kind", "at the end: load of absent client {c}: {e:?}"),
            (Ok(_), None) => fail!("snapshot-phantom", "at the end: the in-memory snapshot has client {c} but must not"),
            (Err(e), Some(_)) => fail!("snapshot-lost", "at the end: client {c} of the in-memory snapshot: {e:?}"),
        }
    }
    Ok(())
}

fn step(w: &mut World, op: &Op, what: &str) -> vh::R<()> {
    match op.clone() {
        Op::Create { c } => {
            let c = c % NP;
            let cl = w.hold.create_client(client_path(c)).map_err(|e| vh::Failure::new("create", format!("{what}: {e}")))?;
            w.register(c, cl, Cl::default());
        }
        Op::Get { c } => {
            // further handles of the same client share its state
            if let (Ok(cl), Some(i)) = (w.hold.get_client(client_path(c)), w.reg.get(&(c % NP)).copied()) {
                let v = bytes(20, c as u64 + 5);
                cl.store().insert(store_key(0), v.clone(), None).map_err(|e| vh::Failure::new("store-error", e.to_string()))?;
                w.handles[i].2.store.insert(store_key(0), Entry { v, exp: None });
                let (_, old, m) = &w.handles[i];
                check_client(old, m, &format!("{what}: earlier handle"))?;
            }
        }
        Op::LoadMem { c } => {
            let c = c % NP;
            let r = w.hold.load_client(client_path(c));
            match (r, w.reg.contains_key(&c), w.snap.get(&c).cloned()) {
                (Err(ClientError::ClientAlreadyLoaded(_)), true, _) => w.tag("refused: already loaded"),
                (Err(ClientError::ClientDataNotPresent), false, None) => w.tag("refused: absent"),
                (Ok(cl), false, Some(m)) => {
                    if !m.is_empty() {
                        w.tag("loaded from memory");
                    }
                    w.register(c, cl, m);
                }
                (r, l, p) => fail!("load-client", "{what}: {:?} (loaded {l}, in the snapshot {})", r.err(), p.is_some()),
            }
        }
        Op::LoadFile { c, f, k } => {
            let c = c % NP;
            let r = w.hold.load_client_from_snapshot(client_path(c), &provider(k), &w.sp(f));
            match (r, w.reg.contains_key(&c), predict_load(w, f, k)) {
                (Err(ClientError::ClientAlreadyLoaded(_)), true, _) => w.tag("refused: already loaded"),
                (Err(ClientError::SnapshotFileMissing(_)), false, Load::Missing) => w.tag("refused: no file"),
                (Err(_), false, Load::Err) => w.tag("refused: wrong key or damaged"),
                (Ok(cl), false, Load::Ok(states)) => {
                    // a client that the file does not have: see the findings of C03
                    let m = states.get(&c).cloned();
                    if m.as_ref().is_some_and(|m| !m.is_empty()) {
                        w.tag("loaded from file");
                    }
                    if m.is_none() {
                        w.tag("absent client loaded as empty");
                    }
                    w.snap = states;
                    w.lost = true;
                    w.register(c, cl, m.unwrap_or_default());
                }
                (Err(_), false, Load::Ok(states)) if !states.contains_key(&c) => w.tag("refused: absent"),
                (r, l, p) => fail!("load-client-from-snapshot", "{what}: {:?} (loaded {l}, file {})", r.err(), match p {
                    Load::Ok(_) => "readable",
                    Load::Missing => "missing",
                    Load::Err => "not readable with this key",
                }),
            }
        }
        Op::Unload { h } => {
            let Some(i) = w.handle(h) else { return Ok(()) };
            let (c, cl, _) = w.handles[i].clone();
            match (w.hold.unload_client(cl), w.reg.remove(&c)) {
                (Ok(got), Some(j)) => check_client(&got, &w.handles[j].2, &format!("{what}: the unloaded client"))?,
                (Err(ClientError::ClientDataNotPresent), None) => w.tag("refused: unload of an unknown client"),
                (r, l) => fail!("unload", "{what}: {:?} (loaded {})", r.err(), l.is_some()),
            }
        }
        Op::WriteClient { c } => {
            let c = c % NP;
            match (w.hold.write_client(client_path(c)), w.reg.get(&c)) {
                (Ok(()), Some(i)) => {
                    let m = w.handles[*i].2.clone();
                    w.snap.insert(c, m);
                }
                (Err(ClientError::ClientDataNotPresent), None) => w.tag("refused: write of an unknown client"),
                (r, l) => fail!("write-client", "{what}: {:?} (loaded {})", r.err(), l.is_some()),
            }
        }
        Op::Purge { h } => {
            let Some(i) = w.handle(h) else { return Ok(()) };
            let (c, cl, _) = w.handles[i].clone();
            w.hold.purge_client(cl).map_err(|e| vh::Failure::new("purge", format!("{what}: {e}")))?;
            w.reg.remove(&c);
            if w.snap.remove(&c).is_some() {
                w.tag("purged from the snapshot");
            }
        }
        Op::Commit { f, k } => {
            let r = w.hold.commit_with_keyprovider(&w.sp(f), &provider(k));
            committed(w, f, k % NK, r, what)?;
        }
        Op::CommitStored { f } => {
            let r = w.hold.commit(&w.sp(f));
            match (w.key_loc, w.stored) {
                (Some(_), Some(k)) if !w.lost => committed(w, f, k, r, what)?,
                // the stored key went with the replaced in-memory snapshot
                (Some(_), Some(k)) => match r {
                    Ok(()) => committed(w, f, k, r, what)?,
                    Err(_) => {
                        w.tag("refused: key lost");
                        sync(w, what)?
                    }
                },
                _ => match r {
                    Err(ClientError::SnapshotKeyLocationMissing) => {
                        w.tag("refused: no key location");
                        sync(w, what)?
                    }
                    r => fail!("commit-no-key", "{what}: {r:?}, but no key is stored"),
                },
            }
        }
        Op::StoreKey { k, l } => {
            w.hold
                .store_snapshot_key_at_location(provider(k), key_location(l))
                .map_err(|e| vh::Failure::new("store-key", format!("{what}: {e}")))?;
            w.key_loc = Some(l);
            w.stored = Some(k % NK);
            w.lost = false;
            if l % 4 == 2 {
                w.tag("key in a vault named like a client");
            }
        }
        Op::LoadSnap { f, k } => {
            let r = w.hold.load_snapshot(&provider(k), &w.sp(f));
            match (r, predict_load(w, f, k)) {
                (Ok(()), Load::Ok(states)) => {
                    if !states.is_empty() {
                        w.tag("loaded snapshot");
                    }
                    w.snap = states;
                    w.lost = true;
                }
                (Err(ClientError::SnapshotFileMissing(_)), Load::Missing) => w.tag("refused: no file"),
                (Err(_), Load::Err) => w.tag("refused: wrong key or damaged"),
                (r, p) => fail!("load-snapshot", "{what}: {r:?} (file {})", match p {
                    Load::Ok(_) => "readable",
                    Load::Missing => "missing",
                    Load::Err => "not readable with this key",
                }),
            }
        }
        Op::Clear => {
            w.hold.clear().map_err(|e| vh::Failure::new("clear", format!("{what}: {e}")))?;
            for (_, i) in std::mem::take(&mut w.reg) {
                w.handles[i].2 = Cl::default();
            }
            w.snap.clear();
            w.instance.clear();
            w.key_loc = None;
            w.stored = None;
            w.lost = false;
            check_store(&w.hold.store(), &w.instance, what)?;
        }
        Op::Reset => {
            w.hold = w.hold.clone().reset();
            // the one it was called on is what it was
            let old = std::mem::replace(&mut w.twin, w.hold.clone());
            for (c, i) in std::mem::take(&mut w.reg) {
                let cl = old.get_client(client_path(c)).map_err(|e| vh::Failure::new("reset", format!("{what}: client {c} of the old instance: {e}")))?;
                check_client(&cl, &w.handles[i].2, &format!("{what}: client {c} of the old instance"))?;
            }
            check_store(&old.store(), &w.instance, what)?;
            w.snap.clear();
            w.instance.clear();
            w.key_loc = None;
            w.stored = None;
            w.lost = false;
            check_store(&w.hold.store(), &w.instance, what)?;
            w.tag("reset");
        }
        Op::Damage { f, how, at } => {
            let p = w.path(f);
            let fi = (f % NF) as usize;
            if !matches!(w.files[fi], FileSt::Good { .. } | FileSt::Bad) {
                return Ok(());
            }
            let was_bad = matches!(w.files[fi], FileSt::Bad);
            let mut b = std::fs::read(&p).unwrap();
            let n = b.len().max(1);
            match how {
                0 if !b.is_empty() => b[at as usize % n] ^= 1 << (at >> 16 & 7),
                1 => b.truncate(at as usize % n),
                2 => b.push(at as u8),
                3 => b.clear(),
                _ => {
                    let _ = std::fs::remove_file(&p);
                    w.files[fi] = FileSt::Missing;
                    return Ok(());
                }
            }
            std::fs::write(&p, b).unwrap();
            if was_bad {
                // a second change might restore it
                std::fs::write(&p, b"damaged").unwrap();
            }
            w.files[fi] = FileSt::Bad;
        }
        Op::Secret { h, l, p, proc_ } => {
            let Some(i) = w.handle(h) else { return Ok(()) };
            let (_, cl, m) = &mut w.handles[i];
            let v = p.bytes();
            let r: Result<(), String> = if proc_ {
                cl.execute_procedure(WriteVault { data: v.clone(), location: l.get() }).map_err(|e| e.to_string())
            } else {
                cl.vault(vault_path(l.v)).write_secret(l.get(), v.clone()).map_err(|e| e.to_string())
            };
            match (r, m.secrets.get(&l)) {
                (Ok(()), Some(Sec::Revoked)) => fail!("write-accepted", "{what}: a revoked location is written without collection"),
                (Ok(()), _) => {
                    m.secrets.insert(l, Sec::Live(v));
                    m.vaults.insert(l.v);
                }
                (Err(_), Some(Sec::Revoked)) => {}
                (Err(e), _) => fail!("write-refused", "{what}: {e}"),
            }
        }
        Op::Revoke { h, l, gc } => {
            let Some(i) = w.handle(h) else { return Ok(()) };
            let (_, cl, m) = &mut w.handles[i];
            if !m.vaults.contains(&l.v) {
                return Ok(());
            }
            cl.execute_procedure(RevokeData { location: l.get(), should_gc: gc }).map_err(|e| vh::Failure::new("revoke", format!("{what}: {e}")))?;
            if let Some(s) = m.secrets.get_mut(&l) {
                *s = Sec::Revoked;
            }
            if gc {
                m.secrets.retain(|k, s| k.v != l.v || matches!(s, Sec::Live(_)));
            }
        }
        Op::Put { h, k, p, ttl } => {
            let Some(i) = w.handle(h) else { return Ok(()) };
            let (_, cl, m) = &mut w.handles[i];
            let d = match ttl {
                Ttl::None => None,
                Ttl::Long => Some(Duration::from_secs(100_000)),
                Ttl::Ms(n) => Some(Duration::from_millis(n as u64)),
            };
            let t0 = SystemTime::now();
            cl.store().insert(store_key(k), p.bytes(), d).map_err(|e| vh::Failure::new("store-error", e.to_string()))?;
            let t1 = SystemTime::now();
            m.store.insert(store_key(k), Entry { v: p.bytes(), exp: d.map(|d| (t0 + d, t1 + d)) });
        }
        Op::Del { h, k } => {
            let Some(i) = w.handle(h) else { return Ok(()) };
            let (_, cl, m) = &mut w.handles[i];
            cl.store().delete(&store_key(k)).map_err(|e| vh::Failure::new("store-error", e.to_string()))?;
            m.store.remove(&store_key(k));
        }
        Op::Instance { k, p } => {
            let s = w.hold.store();
            match p {
                Some(p) => {
                    s.insert(store_key(k), p.bytes(), None).map_err(|e| vh::Failure::new("store-error", e.to_string()))?;
                    w.instance.insert(store_key(k), Entry { v: p.bytes(), exp: None });
                }
                None => {
                    s.delete(&store_key(k)).map_err(|e| vh::Failure::new("store-error", e.to_string()))?;
                    w.instance.remove(&store_key(k));
                }
            }
            check_store(&s, &w.instance, what)?;
        }
        Op::Wait { ms } => std::thread::sleep(Duration::from_millis(ms as u64)),
        Op::Verify { f } => verify_file(w, f, what)?,
    }
    Ok(())
}

fn committed(w: &mut World, f: u8, k: u8, r: Result<(), ClientError>, what: &str) -> vh::R<()> {
    let fi = (f % NF) as usize;
    match (&r, &w.files[fi]) {
        (Err(_), FileSt::Dir) => {
            w.tag("refused: not writable");
            sync(w, what)
        }
        (Ok(()), FileSt::Dir) => fail!("commit-accepted", "{what}: a commit onto a directory reports success"),
        (Ok(()), _) => {
            w.snap_live();
            w.files[fi] = FileSt::Good { key: k, states: w.snap.clone() };
            w.tag("committed");
            Ok(())
        }
        (Err(e), _) => fail!("commit-refused", "{what}: {e}"),
    }
}
/// A refused commit may have written the clients to the in-memory snapshot; both are allowed, so the
/// history goes on from a known state.
fn sync(w: &mut World, what: &str) -> vh::R<()> {
    for c in w.reg.keys().copied().collect::<Vec<_>>() {
        w.hold.write_client(client_path(c)).map_err(|e| vh::Failure::new("write-client", format!("{what}: {e}")))?;
    }
    w.snap_live();
    Ok(())
}
