//! C11: synchronising clients and vaults.
use chk::{large::*, reg::provider, sh::*, view::*, *};
use chk::engine::vault::*;
use sh::sync::MergePolicy;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vh::prelude::*;

const NC: usize = 3;
const V: u8 = SV;
const R: u8 = SR;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(u8, Loc, Pay),
    Revoke(u8, Loc),
    Delete(u8, Loc),
    Gc(u8, u8),
    /// a procedure that fails, with a target in a vault that may not exist
    Fail(u8, Loc),
    Store(u8, u8),
    /// write, unload and load the client again
    Reload(u8),
    With { src: u8, dst: u8, s: Sync },
    Vaults { c: u8, src: u8, dst: u8, keep: bool, recs: Option<Vec<Loc>>, repeat: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    init: Vec<(u8, Loc, Pay)>,
    ops: Vec<Op>,
}

/// the values the same few records take, so that equal and different contents both occur
fn val() -> BoxedStrategy<Pay> {
    prop_oneof![3 => pay(), 2 => (0u16..4).prop_map(|s| Pay { len: 32, s })].boxed()
}

fn l() -> BoxedStrategy<Loc> {
    // records 6 and 7 are counters
    (0..V, prop_oneof![6 => 0..R, 1 => 6u8..8]).prop_map(|(v, r)| Loc { v, r }).boxed()
}

fn op() -> BoxedStrategy<Op> {
    let c = || 0..NC as u8;
    prop_oneof![
        6 => (c(), l(), val()).prop_map(|(c, l, p)| Op::Write(c, l, p)),
        4 => (c(), l()).prop_map(|(c, l)| Op::Revoke(c, l)),
        1 => (c(), l()).prop_map(|(c, l)| Op::Delete(c, l)),
        1 => (c(), 0..V).prop_map(|(c, v)| Op::Gc(c, v)),
        1 => (c(), l()).prop_map(|(c, l)| Op::Fail(c, l)),
        1 => (c(), 0u8..3).prop_map(|(c, k)| Op::Store(c, k)),
        1 => c().prop_map(Op::Reload),
        6 => (c(), c(), sync()).prop_map(|(src, dst, s)| Op::With { src, dst, s }),
        3 => (c(), 0..V, 0..V, any::<bool>(), prop::option::of(prop::collection::vec(l(), 0..4)), any::<bool>())
            .prop_map(|(c, src, dst, keep, recs, repeat)| Op::Vaults { c, src, dst, keep, recs, repeat }),
    ]
    .boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 9 } else { 25 };
    let init = prop_oneof![
        2 => prop::collection::vec((0..NC as u8, l(), val()), 1..14),
        // the same places in all clients, with the same or other contents
        1 => (prop::collection::vec((l(), val(), any::<bool>()), 1..6), prop::bool::weighted(0.3)).prop_map(|(v, copy)| {
            let one = |c: u8| v.iter().map(move |(l, p, same)| (c, *l, Pay { len: p.len, s: if copy || *same { p.s } else { p.s.wrapping_add(c as u16 + 1) } }));
            (0..NC as u8).flat_map(one).collect()
        }),
    ];
    (init, prop::collection::vec(op(), 1..n)).prop_map(|(init, ops)| Case { init, ops }).boxed()
}

struct World {
    holds: [Stronghold; 2],
    clients: Vec<Client>,
    recs: Vec<Recs>,
    /// the store is not part of a synchronisation
    stores: Vec<BTreeMap<Vec<u8>, Vec<u8>>>,
    dir: vh::TempDir,
}

fn hold_of(c: usize) -> usize {
    c / 2
}
fn path(c: usize) -> Vec<u8> {
    format!("client{c}").into_bytes()
}

impl World {
    fn views(&self) -> vh::R<Vec<Recs>> {
        let mut out = vec![];
        for (h, hold) in self.holds.iter().enumerate() {
            let sp = SnapshotPath::from_path(self.dir.path().join(format!("s{h}")));
            hold.commit_with_keyprovider(&sp, &provider(0)).map_err(|e| vh::Failure::new("commit", e.to_string()))?;
            let snap = Snapshot::read_from_snapshot(&sp, raw_key(&provider(0)), None).map_err(|e| vh::Failure::new("read", e.to_string()))?;
            for c in (0..NC).filter(|c| hold_of(*c) == h) {
                let st = snap.get_state(*self.clients[c].id()).map_err(|e| vh::Failure::new("state", e.to_string()))?;
                out.push(records(&st, &format!("client {c}"))?);
            }
        }
        Ok(out)
    }
    fn check(&self, what: &str) -> vh::R<()> {
        let got = self.views()?;
        for c in 0..NC {
            if let Some(d) = diff(&got[c], &self.recs[c]) {
                fail!("state", "{what}: client {c}: {d}")
            }
            let s = self.clients[c].store();
            let mut keys = s.keys().unwrap();
            keys.sort();
            ensure_eq!(keys, self.stores[c].keys().cloned().collect::<Vec<_>>(), "store", "{what}: keys of the store of client {c}");
            for (k, v) in &self.stores[c] {
                ensure_eq!(s.get(k).unwrap(), Some(v.clone()), "store", "{what}: store of client {c}");
            }
        }
        Ok(())
    }
    /// the secrets that can be addressed by path are usable on the live client
    fn usable(&self, c: usize, what: &str) -> vh::R<()> {
        for v in 0..V {
            for r in (0..R).chain(6..8) {
                let l = Loc { v, r }.get();
                check_secret(&self.clients[c], &l, self.recs[c].get(&l.resolve()).map(|v| &v[..]), &format!("{what}: client {c}"))?;
            }
        }
        Ok(())
    }
}

fn run(case: &Case) -> vh::R<Out> {
    let holds = [Stronghold::default(), Stronghold::default()];
    let clients = (0..NC).map(|c| holds[hold_of(c)].create_client(path(c)).unwrap()).collect();
    let mut w = World { holds, clients, recs: vec![Recs::new(); NC], stores: vec![BTreeMap::new(); NC], dir: vh::TempDir::new() };
    let mut revoked: BTreeSet<(usize, VaultId, RecordId)> = BTreeSet::new();
    let f = |s: &str, e: String| vh::Failure::new(s, e);
    let (mut copied, mut kept, mut replaced, mut mapped, mut unselected, mut ambiguous) = (0, 0, 0, 0, 0, 0);
    let write = |w: &mut World, revoked: &BTreeSet<(usize, VaultId, RecordId)>, c: usize, l: Loc, p: &Pay| -> vh::R<()> {
        let loc = l.get();
        let (vid, rid) = loc.resolve();
        let r = w.clients[c].vault(vault_path(l.v)).write_secret(loc, p.bytes());
        if revoked.contains(&(c, vid, rid)) {
            ensure!(r.is_err(), "write-revoked", "client {c}: a revoked location was written");
        } else {
            r.map_err(|e| vh::Failure::new("write", e.to_string()))?;
            w.recs[c].insert((vid, rid), p.bytes());
        }
        Ok(())
    };
    for (c, l, p) in &case.init {
        write(&mut w, &revoked, *c as usize, *l, p)?;
    }
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("op {i} {op:?}");
        match op {
            Op::Write(c, l, p) => write(&mut w, &revoked, *c as usize, *l, p)?,
            Op::Revoke(c, l) => {
                let c = *c as usize;
                let l = l.near(&w.recs[c]);
                let id = l.get().resolve();
                let had = w.recs[c].contains_key(&id);
                let r = w.clients[c].execute_procedure(sh::procedures::RevokeData { location: l.get(), should_gc: false });
                if had {
                    r.map_err(|e| f("revoke", format!("{what}: {e}")))?;
                    w.recs[c].remove(&id);
                    revoked.insert((c, id.0, id.1));
                }
            }
            Op::Delete(c, l) => {
                let c = *c as usize;
                let id = l.get().resolve();
                let had = w.recs[c].contains_key(&id);
                let r = w.clients[c].execute_procedure(sh::procedures::RevokeData { location: l.get(), should_gc: true });
                if had {
                    r.map_err(|e| f("delete", format!("{what}: {e}")))?;
                    w.recs[c].remove(&id);
                    revoked.retain(|x| (x.0, x.1) != (c, id.0));
                } else if r.is_ok() {
                    revoked.retain(|x| (x.0, x.1) != (c, id.0));
                }
            }
            Op::Gc(c, v) => {
                let c = *c as usize;
                if let Ok(true) = w.clients[c].vault(vault_path(*v)).cleanup() {
                    let vid = Loc { v: *v, r: 0 }.get().resolve().0;
                    revoked.retain(|x| (x.0, x.1) != (c, vid));
                }
            }
            Op::Fail(c, l) => {
                // a source that exists, if there is one: the procedure then fails late
                let source = (0..V).flat_map(|v| (0..R).map(move |r| Loc { v, r })).find(|l| w.recs[*c as usize].contains_key(&l.get().resolve()));
                let r = w.clients[*c as usize].execute_procedure(sh::procedures::ConcatKdf {
                    hash: sh::procedures::Sha2Hash::Sha256,
                    algorithm_id: "a".into(),
                    shared_secret: source.map_or(Location::generic("no such", "thing"), |l| l.get()),
                    key_len: usize::MAX,
                    apu: vec![],
                    apv: vec![],
                    pub_info: vec![],
                    priv_info: vec![],
                    output: l.get(),
                });
                ensure!(r.is_err(), "fail", "deriving an endless key succeeded");
            }
            Op::Store(c, k) => {
                let c = *c as usize;
                let (k, v) = (vec![*k], bytes(10, i as u64 * 3));
                w.clients[c].store().insert(k.clone(), v.clone(), None).map_err(|e| f("store", e.to_string()))?;
                w.stores[c].insert(k, v);
            }
            Op::Reload(c) => {
                let c = *c as usize;
                let hold = &w.holds[hold_of(c)];
                hold.write_client(path(c)).map_err(|e| f("write-client", e.to_string()))?;
                hold.unload_client(w.clients[c].clone()).map_err(|e| f("unload", e.to_string()))?;
                w.clients[c] = hold.load_client(path(c)).map_err(|e| f("load", e.to_string()))?;
            }
            Op::With { src, dst, s } => {
                let (src, dst) = (*src as usize, *dst as usize);
                let cfg = s.config();
                let map = s.map();
                let selected = |v: &VaultId, r: &RecordId| s.selected(v, r);
                let old = w.recs[dst].clone();
                let mut want = expect(&w.recs[src], &w.recs[dst], s.keep, &map, &selected);
                unselected += w.recs[src].keys().filter(|(v, r)| !selected(v, r)).count();
                mapped += w.recs[src].keys().filter(|(v, r)| selected(v, r) && map.get(v).map_or(false, |m| m != v)).count();
                for k in 0..=(s.repeat as usize) {
                    let what = format!("{what} (run {k})");
                    if src == dst {
                        // the first run may have changed what there is to copy
                        want = expect(&w.recs[src], &w.recs[dst], s.keep, &map, &selected);
                    }
                    let (d, o) = (w.clients[dst].clone(), w.clients[src].clone());
                    np("sync_with", || d.sync_with(&o, cfg.clone()))?.map_err(|e| f("sync-error", format!("{what}: {e}")))?;
                    apply(&mut w, dst, &want, &what, &mut ambiguous)?;
                    if ambiguous > 0 {
                        break;
                    }
                }
                account(&old, &w.recs[dst], &want, &w.recs[src], s.keep, &mut copied, &mut kept, &mut replaced);
                revoked.retain(|x| x.0 != dst || !want.contains_key(&(x.1, x.2)));
                w.usable(dst, &what)?;
            }
            Op::Vaults { c, src, dst, keep, recs, repeat } => {
                let c = *c as usize;
                let policy = if *keep { MergePolicy::KeepOld } else { MergePolicy::Replace };
                let map: HashMap<VaultId, VaultId> = [(vid(*src), vid(*dst))].into();
                let ids: Option<Vec<RecordId>> = recs.as_ref().map(|v| v.iter().map(|l| Loc { v: *src, r: l.r }.get().resolve().1).collect());
                let selected = |v: &VaultId, r: &RecordId| *v == vid(*src) && ids.as_ref().map_or(true, |x| x.contains(r));
                let old = w.recs[c].clone();
                let want = expect(&w.recs[c], &w.recs[c], *keep, &map, &selected);
                unselected += w.recs[c].keys().filter(|(v, r)| *v == vid(*src) && !selected(v, r)).count();
                for k in 0..=(*repeat as usize) {
                    let what = format!("{what} (run {k})");
                    let cl = w.clients[c].clone();
                    np("sync_vaults", || cl.sync_vaults(vault_path(*src), vault_path(*dst), ids.clone(), policy))?.map_err(|e| f("sync-error", format!("{what}: {e}")))?;
                    apply(&mut w, c, &want, &what, &mut ambiguous)?;
                }
                account(&old, &w.recs[c], &want, &old, *keep, &mut copied, &mut kept, &mut replaced);
                revoked.retain(|x| x.0 != c || !want.contains_key(&(x.1, x.2)));
                w.usable(c, &what)?;
            }
        }
    }
    w.check("at the end")?;
    for c in 0..NC {
        w.usable(c, "at the end")?;
    }
    Ok(Out::new(copied + replaced > 0)
        .tag_if(copied > 0, "copied")
        .tag_if(kept > 0, "kept")
        .tag_if(replaced > 0, "replaced")
        .tag_if(mapped > 0, "mapped")
        .tag_if(unselected > 0, "unselected")
        .tag_if(ambiguous > 0, "ambiguous"))
}

#[allow(clippy::too_many_arguments)]
fn account(old: &Recs, new: &Recs, want: &BTreeMap<(VaultId, RecordId), Vec<Vec<u8>>>, _src: &Recs, keep: bool, copied: &mut usize, kept: &mut usize, replaced: &mut usize) {
    for k in want.keys() {
        match old.get(k) {
            None => *copied += 1,
            Some(v) if Some(v) != new.get(k) => *replaced += 1,
            _ => {}
        }
    }
    if keep && want.len() < old.len() {
        *kept += 1;
    }
}

/// Compares the target with what is expected and takes the new state over into the model.
fn apply(w: &mut World, dst: usize, want: &BTreeMap<(VaultId, RecordId), Vec<Vec<u8>>>, what: &str, ambiguous: &mut usize) -> vh::R<()> {
    let got = w.views()?;
    for (k, vals) in want {
        let mut v = vals[0].clone();
        if vals.iter().any(|x| x != &v) {
            // two source vaults give the same record of one target vault different values: either may win
            *ambiguous += 1;
            if let Some(g) = got[dst].get(k) {
                if vals.contains(g) {
                    v = g.clone();
                }
            }
        }
        w.recs[dst].insert(*k, v);
    }
    for c in 0..NC {
        if let Some(d) = diff(&got[c], &w.recs[c]) {
            let sig = if c == dst { "target" } else { "source" };
            fail!(sig, "{what}: client {c}: {d}")
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- large vaults

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    src: Many,
    dst: Many,
    keep: bool,
    /// None: the first vault of one client to another vault of it
    two: bool,
    /// how many vaults are shifted to another one
    map: u16,
    /// of these vaults only some records
    select: u16,
    /// only vaults below
    vaults: Option<u16>,
}
fn big(t: Tier) -> BoxedStrategy<Big> {
    let n = if t == Tier::Quick { 600 } else { 2500 };
    (many(n), many(n), any::<bool>(), prop::bool::weighted(0.7), prop_oneof![Just(0), 0u16..50], prop_oneof![Just(0), 0u16..50], prop::option::of(0u16..200))
        .prop_map(|(src, dst, keep, two, map, select, vaults)| Big { src, dst, keep, two, map, select, vaults })
        .boxed()
}
fn big_run(case: &Big) -> vh::R<Out> {
    let hold = Stronghold::default();
    let dir = vh::TempDir::new();
    let sp = SnapshotPath::from_path(dir.path().join("s"));
    let f = |s: &'static str| move |e: ClientError| vh::Failure::new(s, e.to_string());
    let mut cls = vec![];
    let mut recs = vec![];
    for (i, c) in [&case.src, &case.dst].into_iter().enumerate() {
        let cl = hold.create_client(path(i)).map_err(f("create"))?;
        let mut m = Recs::new();
        let mut g = c.rng();
        for _ in 0..c.n {
            let (v, r) = c.pick(&mut g);
            let p = c.payload(&mut g);
            cl.vault(Many::vault(v)).write_secret(Many::location(v, r), p.clone()).map_err(f("write"))?;
            m.insert(Many::location(v, r).resolve(), p);
        }
        cls.push(cl);
        recs.push(m);
    }
    let vid = |v: u16| Many::location(v, 0).resolve().0;
    let some = |v: u16| -> Vec<u16> { (0..700).filter(|r| (r + v) % 3 != 0 && r % 3 != 2).collect() };
    let policy = policy(case.keep);
    let what = format!("{case:?}");
    let want;
    let dst;
    if case.two {
        dst = 1;
        let mut cfg = sh::sync::SyncClientsConfig::new(policy);
        if let Some(n) = case.vaults {
            cfg.sync_selected_vaults((0..n).map(Many::vault).collect());
        }
        for v in 0..case.select {
            cfg.sync_selected_record(Many::vault(v), some(v).into_iter().map(Many::record).collect());
        }
        // the records keep their ids, so that no two of them meet
        cfg.map_vaults((0..case.map).map(|v| (Many::vault(v), Many::vault(v + 1))).collect());
        let map: HashMap<VaultId, VaultId> = (0..case.map).map(|v| (vid(v), vid(v + 1))).collect();
        let ids: HashMap<VaultId, BTreeSet<RecordId>> = (0..case.select).map(|v| (vid(v), some(v).into_iter().map(|r| Many::location(v, r).resolve().1).collect())).collect();
        let vaults: Option<BTreeSet<VaultId>> = case.vaults.map(|n| (0..n).map(vid).collect());
        want = expect(&recs[0], &recs[1], case.keep, &map, |v, r| vaults.as_ref().map_or(true, |x| x.contains(v)) && ids.get(v).map_or(true, |x| x.contains(r)));
        let (d, s) = (cls[1].clone(), cls[0].clone());
        np("sync_with", || d.sync_with(&s, cfg))?.map_err(f("sync-error"))?;
    } else {
        dst = 0;
        let (a, b) = (vid(0), vid(1));
        let ids: Option<Vec<RecordId>> = (case.select > 0).then(|| some(0).into_iter().map(|r| Many::location(0, r).resolve().1).collect());
        want = expect(&recs[0], &recs[0], case.keep, &[(a, b)].into(), |v, r| *v == a && ids.as_ref().map_or(true, |x| x.contains(r)));
        let c = cls[0].clone();
        np("sync_vaults", || c.sync_vaults(Many::vault(0), Many::vault(1), ids.clone(), policy))?.map_err(f("sync-error"))?;
    }
    let moved = want.len();
    for (k, v) in want {
        recs[dst].insert(k, v[0].clone());
    }
    hold.commit_with_keyprovider(&sp, &provider(0)).map_err(f("commit"))?;
    let snap = Snapshot::read_from_snapshot(&sp, raw_key(&provider(0)), None).map_err(|e| vh::Failure::new("read", e.to_string()))?;
    for (c, r) in recs.iter().enumerate() {
        let got = records(&snap.get_state(*cls[c].id()).map_err(|e| vh::Failure::new("state", e.to_string()))?, &what)?;
        if let Some(d) = diff(&got, r) {
            fail!(if c == dst { "target" } else { "source" }, "{what}: client {c}: {d}")
        }
    }
    let n = if dst == 1 { &case.src } else { &case.dst };
    let (mut g, mut used) = (n.rng(), 0);
    for _ in 0..200 {
        let (v, r) = n.pick(&mut g);
        let l = Many::location(v, r);
        let have = recs[dst].get(&l.resolve());
        used += have.is_some() as usize;
        check_secret(&cls[dst], &l, have.map(|x| &x[..]), &what)?;
    }
    Ok(Out::new(moved > 16).tag_if(moved > 256, "more than 256 records").tag_if(used > 0, "used"))
}

fn main() {
    vh::main(vec![Property {
        id: "C11",
        level: "exploration",
        assumptions: &["one thread", "where the configuration maps two source vaults with the same record id and different values to one vault, either value may win"],
        facets: vec![Facet {
            name: "large",
            rule: "one synchronisation between clients or vaults with hundreds of vaults or records; non-trivial = more than 16 records transferred",
            cases: (80, 2000),
            batch: 5,
            racy: false,
            strategy: big,
            run: big_run,
        }
        .boxed(),
        Facet {
            name: "sync",
            rule: "histories of writes, revocations, cleanups, reloads and client-to-client and vault-to-vault synchronisations over 3 clients; non-trivial = at least one record was copied or replaced",
            cases: (2500, 40000),
            batch: 20,
            racy: false,
            strategy,
            run,
        }
        .boxed()],
        findings: vec![],
    }])
}
