//! C02: commit and load restore the exact state.
use chk::{large::*, reg::*, sh::*, *};
use std::{collections::BTreeMap, time::Duration};
use vh::prelude::*;

fn content(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 20 } else { 70 };
    history(Mode::Content, n).prop_map(|ops| Case { ops }).boxed()
}
fn timed(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 12 } else { 30 };
    history(Mode::Timed, n).prop_map(|ops| Case { ops }).boxed()
}

// ---------------------------------------------------------------- large states

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    clients: Vec<(Many, u16)>,
    key: u8,
    /// the same instance is asked to load the file, not only a fresh one
    rounds: u8,
}
fn large(t: Tier) -> BoxedStrategy<Large> {
    let n = if t == Tier::Quick { 600 } else { 2500 };
    let few = (prop::collection::vec((many(n), 0u16..400), 1..4)).boxed();
    let lots = (prop::collection::vec((many(16), 0u16..6), 20..if t == Tier::Quick { 90 } else { 400 })).boxed();
    (prop_oneof![2 => few, 1 => lots], 0u8..4, 1u8..3).prop_map(|(clients, key, rounds)| Large { clients, key, rounds }).boxed()
}
type Contents = (BTreeMap<(u16, u16), Vec<u8>>, BTreeMap<Vec<u8>, Vec<u8>>);
fn large_run(case: &Large) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let sp = SnapshotPath::from_path(dir.path().join("snap"));
    let f = |s: &'static str| move |e: ClientError| vh::Failure::new(s, e.to_string());
    let path = |i: usize| format!("client {i}");
    let mut hold = Stronghold::default();
    let mut m: Vec<Contents> = vec![];
    let mut g = Rng(1);
    for (i, (c, ns)) in case.clients.iter().enumerate() {
        let cl = hold.create_client(path(i)).map_err(f("create"))?;
        g = c.rng();
        let mut x = Contents::default();
        for _ in 0..c.n {
            let (v, r) = c.pick(&mut g);
            let p = c.payload(&mut g);
            cl.vault(Many::vault(v)).write_secret(Many::location(v, r), p.clone()).map_err(f("write"))?;
            x.0.insert((v, r), p);
        }
        for k in 0..*ns {
            let p = c.payload(&mut g);
            let key = match k % 5 {
                0 => bytes(k as usize * 7, 3),
                _ => k.to_be_bytes().to_vec(),
            };
            cl.store().insert(key.clone(), p.clone(), (k % 3 == 0).then(|| Duration::from_secs(100_000))).map_err(f("insert"))?;
            x.1.insert(key, p);
        }
        m.push(x);
    }
    let check = |hold: &Stronghold, m: &[Contents], what: &str| -> vh::R<()> {
        for (i, x) in m.iter().enumerate() {
            let cl = hold.get_client(path(i)).map_err(f("get"))?;
            for ((v, r), p) in &x.0 {
                check_secret(&cl, &Many::location(*v, *r), Some(p), &format!("{what}: client {i}"))?;
            }
            for v in 0..8 {
                let absent = (v, 701);
                check_secret(&cl, &Many::location(absent.0, absent.1), None, &format!("{what}: client {i}"))?;
            }
            let mut keys = cl.store().keys().map_err(f("keys"))?;
            keys.sort();
            ensure_eq!(keys, x.1.keys().cloned().collect::<Vec<_>>(), "store-keys", "{what}: keys of the store of client {i}");
            for (k, v) in &x.1 {
                ensure!(cl.store().get(k).map_err(f("get"))?.as_ref() == Some(v), "store-value", "{what}: store of client {i}, key {k:?}");
            }
        }
        Ok(())
    };
    for round in 0..case.rounds {
        let what = format!("round {round}");
        hold.commit_with_keyprovider(&sp, &provider(case.key)).map_err(f("commit"))?;
        check(&hold, &m, &format!("{what}, after the commit"))?;
        let fresh = Stronghold::default();
        fresh.load_snapshot(&provider(case.key), &sp).map_err(f("load-snapshot"))?;
        for i in 0..m.len() {
            fresh.load_client(path(i)).map_err(f("load-client"))?;
        }
        check(&fresh, &m, &format!("{what}, loaded"))?;
        // go on in the loaded instance
        hold = fresh;
        for (i, x) in m.iter_mut().enumerate() {
            let cl = hold.get_client(path(i)).map_err(f("get"))?;
            let v = g.below(case.clients[i].0.nv as u64) as u16;
            // the vault is replaced by a single new record in some rounds
            if g.below(3) == 0 {
                for (_, r) in x.0.keys().filter(|k| k.0 == v) {
                    cl.execute_procedure(procedures::RevokeData { location: Many::location(v, *r), should_gc: true }).map_err(|e| vh::Failure::new("delete", e.to_string()))?;
                }
                x.0.retain(|k, _| k.0 != v);
            }
            let p = case.clients[i].0.payload(&mut g);
            cl.vault(Many::vault(v)).write_secret(Many::location(v, 700), p.clone()).map_err(f("write"))?;
            x.0.insert((v, 700), p);
        }
    }
    check(&hold, &m, "at the end")?;
    let size = std::fs::metadata(sp.as_path()).map(|m| m.len()).unwrap_or(0);
    Ok(Out::new(size > 16_384).tag_if(size > 65_536, "larger than 64 KiB").tag_if(size > 1 << 20, "larger than 1 MiB").tag_if(m.len() > 16, "many clients"))
}

// ---------------------------------------------------------------- megabytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Part {
    client: u8,
    store: bool,
    bytes: u32,
    /// compressible
    run: bool,
    seed: u16,
}
impl Part {
    fn data(&self) -> Vec<u8> {
        match self.run {
            true => vec![self.seed as u8; self.bytes as usize],
            false => bytes(self.bytes as usize, self.seed as u64),
        }
    }
}
fn huge(t: Tier) -> BoxedStrategy<Vec<Part>> {
    let most = if t == Tier::Quick { 24u32 << 20 } else { 70 << 20 };
    let n = prop_oneof![
        2 => 0u32..100_000,
        2 => 100_000u32..most,
        // around powers of two
        2 => (16u32..27, 0u32..40).prop_map(move |(e, d)| ((1u32 << e) + d - 20).min(most)),
    ];
    prop::collection::vec((0u8..3, any::<bool>(), n, prop::bool::weighted(0.3), any::<u16>()).prop_map(|(client, store, bytes, run, seed)| Part { client, store, bytes, run, seed }), 1..5).boxed()
}
fn huge_run(case: &Vec<Part>) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let sp = SnapshotPath::from_path(dir.path().join("snap"));
    let f = |s: &'static str| move |e: ClientError| vh::Failure::new(s, e.to_string());
    let path = |i: u8| format!("client {i}");
    let hold = Stronghold::default();
    let mut total = 0;
    for i in 0..3 {
        hold.create_client(path(i)).map_err(f("create"))?;
    }
    let at = |k: usize| Location::generic(format!("v{}", k % 2), format!("r{k}"));
    for (k, p) in case.iter().enumerate() {
        let cl = hold.get_client(path(p.client)).map_err(f("get"))?;
        total += p.bytes as u64;
        if p.store {
            cl.store().insert(vec![k as u8], p.data(), None).map_err(f("insert"))?;
        } else {
            cl.vault(format!("v{}", k % 2)).write_secret(at(k), p.data()).map_err(f("write"))?;
        }
    }
    hold.commit_with_keyprovider(&sp, &provider(1)).map_err(f("commit"))?;
    let fresh = Stronghold::default();
    fresh.load_snapshot(&provider(1), &sp).map_err(f("load-snapshot"))?;
    for i in 0..3 {
        fresh.load_client(path(i)).map_err(f("load-client"))?;
    }
    for (hold, what) in [(&hold, "live"), (&fresh, "loaded")] {
        for (k, p) in case.iter().enumerate() {
            let cl = hold.get_client(path(p.client)).map_err(f("get"))?;
            let d = p.data();
            if p.store {
                ensure!(cl.store().get(&[k as u8]).map_err(f("get"))?.as_ref() == Some(&d), "store-value", "{what}: part {k} {p:?}");
            } else {
                match cmp_secret(&cl, &at(k), &d) {
                    Ok(true) => {}
                    r => fail!("secret", "{what}: part {k} {p:?}: {r:?}"),
                }
            }
        }
    }
    Ok(Out::new(total > 1 << 20).tag_if(total > 16 << 20, "larger than 16 MiB"))
}

// ---------------------------------------------------------------- named snapshots

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Named {
    /// write a value, committed under a name and with a key
    Commit(u8, u8, u16),
    /// load in a fresh instance with a key
    Load(u8, u8),
    /// the file given away
    Remove(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NamedCase {
    home: u8,
    ops: Vec<Named>,
}
const NAMES: u8 = 16;
fn name_of(i: u8) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let s: Vec<u8> = match i % NAMES {
        0 => b"main".to_vec(),
        1 => b"Main".to_vec(),
        2 => b"main.stronghold".to_vec(),
        3 => b"main.tmp".to_vec(),
        4 => b"main.a.b".to_vec(),
        5 => b"main.a.c".to_vec(),
        6 => b".main".to_vec(),
        7 => b"main ".to_vec(),
        8 => b" main".to_vec(),
        9 => "m\u{e4}in".as_bytes().to_vec(),
        10 => "ma\u{308}in".as_bytes().to_vec(),
        11 => b"m\xffin".to_vec(),
        12 => b"m\xfein".to_vec(),
        13 => vec![b'n'; 200],
        14 => [vec![b'n'; 199], vec![b'm']].concat(),
        _ => b"main~".to_vec(),
    };
    std::ffi::OsString::from_vec(s)
}
fn named(t: Tier) -> BoxedStrategy<NamedCase> {
    let n = if t == Tier::Quick { 10 } else { 30 };
    let op = prop_oneof![
        4 => (0..NAMES, 0u8..3, any::<u16>()).prop_map(|(n, k, v)| Named::Commit(n, k, v)),
        3 => (0..NAMES, 0u8..3).prop_map(|(n, k)| Named::Load(n, k)),
        1 => (0..NAMES).prop_map(Named::Remove),
    ];
    (0u8..5, prop::collection::vec(op, 1..n)).prop_map(|(home, ops)| NamedCase { home, ops }).boxed()
}
fn named_run(case: &NamedCase) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let home = dir.path().join(["home", "not/yet/there", "with space.d", "h\u{f6}me", ".stronghold"][case.home as usize % 5]);
    // (only one thread runs)
    let old = std::env::var_os("STRONGHOLD");
    std::env::set_var("STRONGHOLD", &home);
    let r = vh::no_panic(std::panic::AssertUnwindSafe(|| named_in(case, &home)));
    match old {
        Some(o) => std::env::set_var("STRONGHOLD", o),
        None => std::env::remove_var("STRONGHOLD"),
    }
    match r {
        Ok(r) => r,
        Err(p) => fail!("panic", "{p}"),
    }
}
fn named_in(case: &NamedCase, home: &std::path::Path) -> vh::R<Out> {
    let f = |s: &'static str| move |e: ClientError| vh::Failure::new(s, e.to_string());
    let loc = Location::generic("v", "r");
    let hold = Stronghold::default();
    let cl = hold.create_client("c").map_err(f("create"))?;
    let mut m: BTreeMap<u8, (u8, u16)> = BTreeMap::new();
    let (mut loads, mut near) = (0, 0);
    let mut load = |n: u8, k: u8, m: &BTreeMap<u8, (u8, u16)>| -> vh::R<()> {
        let sp = SnapshotPath::named(name_of(n));
        ensure!(sp.as_path().starts_with(home), "outside-home", "the snapshot named {:?} is at {:?}, home is {home:?}", name_of(n), sp.as_path());
        ensure!(sp.exists() == m.contains_key(&n), "exists", "{:?}: exists() is {}", name_of(n), sp.exists());
        // the same place given as a path
        let sp = if k % 2 == 0 { sp } else { SnapshotPath::from_path(sp.as_path()) };
        let fresh = Stronghold::default();
        let r = fresh.load_client_from_snapshot("c", &provider(k), &sp);
        match (r, m.get(&n)) {
            (Ok(c), Some((k2, v))) if *k2 == k => {
                loads += 1;
                match cmp_secret(&c, &loc, &bytes(16, *v as u64)) {
                    Ok(true) => {}
                    r => fail!("secret", "{:?} (value {v}): {r:?}", name_of(n)),
                }
            }
            (Ok(_), x) => fail!("loaded", "{:?} with key {k} was loaded, the file is {x:?}", name_of(n)),
            (Err(e), Some((k2, _))) if *k2 == k => fail!("load", "{:?}: {e}", name_of(n)),
            (Err(_), _) => {}
        }
        Ok(())
    };
    for op in &case.ops {
        match op {
            Named::Commit(n, k, v) => {
                cl.vault("v").write_secret(loc.clone(), bytes(16, *v as u64)).map_err(f("write"))?;
                hold.commit_with_keyprovider(&SnapshotPath::named(name_of(*n)), &provider(*k)).map_err(f("commit"))?;
                near += m.keys().any(|x| x != n) as u32;
                m.insert(*n, (*k, *v));
            }
            Named::Load(n, k) => load(*n, *k, &m)?,
            Named::Remove(n) => {
                if m.remove(n).is_some() {
                    std::fs::remove_file(SnapshotPath::named(name_of(*n)).as_path()).map_err(|e| vh::Failure::new("remove", format!("{:?}: {e}", name_of(*n))))?;
                }
            }
        }
    }
    for n in 0..NAMES {
        load(n, m.get(&n).map_or(0, |x| x.0), &m)?;
    }
    // the engine's own names
    let mut seen = BTreeMap::new();
    for n in 0..NAMES {
        let Ok(name) = name_of(n).into_string() else { continue };
        let p = engine::snapshot::files::get_path(Some(&name)).map_err(|e| vh::Failure::new("get-path", e.to_string()))?;
        ensure!(p.starts_with(home) && p.parent().is_some_and(|d| d.is_dir()), "engine-path", "{name:?} is at {p:?}, home is {home:?}");
        if let Some(o) = seen.insert(p.clone(), name.clone()) {
            fail!("engine-name", "{name:?} and {o:?} are both at {p:?}")
        }
        ensure!((engine::snapshot::files::get_path(None).ok().as_ref() == Some(&p)) == (n == 0), "engine-default", "{name:?} is at {p:?}, the default is {:?}", engine::snapshot::files::get_path(None));
    }
    Ok(Out::new(loads > 0).tag_if(near > 0, "several files").tag_if(case.home % 5 == 1, "home created"))
}

fn main() {
    vh::main(vec![Property {
        id: "C02",
        level: "exploration",
        assumptions: &["one thread", "after a refused commit the clients may or may not be in the in-memory snapshot"],
        facets: vec![
            Facet { name: "histories", rule: "histories of contents changes, commits, loads and unloads over three clients and four files; non-trivial = a non-empty client or snapshot was loaded back", cases: (3000, 60000), batch: 20, racy: false, strategy: content, run }.boxed(),
            Facet { name: "lifetimes", rule: "the same with short store lifetimes and waits", cases: (500, 8000), batch: 5, racy: false, strategy: timed, run }.boxed(),
            Facet { name: "large", rule: "up to 90 clients or hundreds of vaults, records and store entries with values of up to 256 KiB, committed, loaded in a fresh instance, changed there and committed again; non-trivial = the file has more than 16 KiB", cases: (60, 1500), batch: 3, racy: false, strategy: large, run: large_run }.boxed(),
            Facet { name: "huge", rule: "secrets and store values of up to 24 MiB (thorough: 70) committed and loaded; non-trivial = more than 1 MiB", cases: (64, 1500), batch: 2, racy: false, strategy: huge, run: huge_run }.boxed(),
            Facet { name: "named", rule: "snapshots under known names (similar ones, not UTF-8, long) below a home directory, written, removed and loaded in fresh instances; the places of the engine's names; non-trivial = something was loaded back", cases: (1500, 20000), batch: 50, racy: false, strategy: named, run: named_run }.boxed(),
        ],
        findings: vec![],
    }])
}
