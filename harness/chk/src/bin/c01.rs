//! C01: vaults of a client behave as a map from location to the last secret written.
use chk::{large::*, sh::{procedures::*, *}, *};
use std::collections::{BTreeMap, BTreeSet};
use vh::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// write through the vault handle or the write procedure
    Write { c: u8, l: Loc, p: Pay, proc_: bool },
    Copy { c: u8, a: Loc, b: Loc },
    Concat { c: u8, a: Loc, b: Loc, o: Loc },
    Gen { c: u8, l: Loc, x: bool },
    Revoke { c: u8, l: Loc, proc_: bool },
    RevokeGc { c: u8, l: Loc },
    Delete { c: u8, l: Loc },
    Gc { c: u8, v: u8, proc_: bool },
    Handle { c: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
}

fn op(nv: u8, nr: u8) -> BoxedStrategy<Op> {
    let c = || 0u8..2;
    let l = move || loc(nv, nr);
    prop_oneof![
        10 => (c(), l(), pay(), any::<bool>()).prop_map(|(c, l, p, proc_)| Op::Write { c, l, p, proc_ }),
        3 => (c(), l(), l()).prop_map(|(c, a, b)| Op::Copy { c, a, b }),
        2 => (c(), l(), l(), l()).prop_map(|(c, a, b, o)| Op::Concat { c, a, b, o }),
        1 => (c(), l(), any::<bool>()).prop_map(|(c, l, x)| Op::Gen { c, l, x }),
        4 => (c(), l(), any::<bool>()).prop_map(|(c, l, proc_)| Op::Revoke { c, l, proc_ }),
        2 => (c(), l()).prop_map(|(c, l)| Op::RevokeGc { c, l }),
        3 => (c(), l()).prop_map(|(c, l)| Op::Delete { c, l }),
        3 => (c(), 0..nv, any::<bool>()).prop_map(|(c, v, proc_)| Op::Gc { c, v, proc_ }),
        1 => c().prop_map(|c| Op::Handle { c }),
    ]
    .boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 40 } else { 120 };
    // few locations, so that most operations meet state left by earlier ones
    prop_oneof![
        3 => prop::collection::vec(op(2, 3), 1..n),
        2 => prop::collection::vec(op(NV, NR), 1..n),
        1 => prop::collection::vec(op(1, 9), 1..n),
    ]
    .prop_map(|ops| Case { ops })
    .boxed()
}

#[derive(Clone)]
enum St {
    Live(Vec<u8>),
    /// written by a generator: the value is random, kept as a copy at a shadow location of the same client
    LiveRandom(usize),
    Revoked,
}

struct Cl {
    client: Client,
    model: BTreeMap<Loc, St>,
    vaults: BTreeSet<u8>,
    /// vaults that a refused procedure may have created
    maybe: BTreeSet<u8>,
}

fn check(cl: &Cl, l: Loc, what: &str) -> vh::R<()> {
    match cl.model.get(&l) {
        Some(St::Live(v)) => check_secret(&cl.client, &l.get(), Some(v), what),
        Some(St::LiveRandom(n)) => {
            ensure!(cl.client.record_exists(&l.get()).unwrap_or(false), "missing", "{what}: generated secret at {l:?} missing");
            match cmp_secret(&cl.client, &l.get(), &vec![0; *n]) {
                Ok(false) => Ok(()),
                Ok(true) => fail!("zero-key", "{what}: generated key is all zero"),
                Err(e) => fail!("unreadable", "{what}: generated secret at {l:?}: {e}"),
            }
        }
        Some(St::Revoked) | None => check_secret(&cl.client, &l.get(), None, what),
    }
}

fn run(case: &Case) -> vh::R<Out> {
    let hold = Stronghold::default();
    let mut cls: Vec<Cl> = (0..2u8)
        .map(|i| Cl {
            client: hold.create_client(format!("client{i}")).unwrap(),
            model: BTreeMap::new(),
            vaults: BTreeSet::new(),
            maybe: BTreeSet::new(),
        })
        .collect();
    let mut locs: BTreeSet<Loc> = BTreeSet::new();
    let (mut overwrites, mut rewrites_after_gc, mut revokes) = (0, 0, 0);
    let mut was_gced: BTreeSet<(u8, Loc)> = BTreeSet::new();
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("after op {i} {op:?}");
        let mut touched: Vec<(u8, Loc)> = vec![];
        match op.clone() {
            Op::Write { c, l, p, proc_ } => {
                locs.insert(l);
                let v = p.bytes();
                let cl = &mut cls[c as usize];
                let res: Result<(), String> = if proc_ {
                    cl.client.execute_procedure(WriteVault { data: v.clone(), location: l.get() }).map_err(|e| e.to_string())
                } else {
                    cl.client.vault(vault_path(l.v)).write_secret(l.get(), v.clone()).map_err(|e| e.to_string())
                };
                match (&res, cl.model.get(&l)) {
                    (Ok(()), prev) => {
                        if matches!(prev, Some(St::Live(_)) | Some(St::LiveRandom(_))) {
                            overwrites += 1;
                        }
                        if was_gced.contains(&(c, l)) {
                            rewrites_after_gc += 1;
                        }
                        cl.model.insert(l, St::Live(v));
                        cl.vaults.insert(l.v);
                    }
                    (Err(_), Some(St::Revoked)) => {} // refused until collected
                    (Err(e), _) => fail!("write-refused", "{what}: {e}"),
                }
                touched.push((c, l));
            }
            Op::Copy { c, a, b } => {
                locs.insert(a);
                locs.insert(b);
                let cl = &mut cls[c as usize];
                let res = cl.client.execute_procedure(CopyRecord { source: a.get(), target: b.get() });
                produced(cl, &[a], b, res.map_err(|e| e.to_string()), &what)?;
                touched.extend([(c, a), (c, b)]);
            }
            Op::Concat { c, a, b, o } => {
                for x in [a, b, o] {
                    locs.insert(x);
                    touched.push((c, x));
                }
                let cl = &mut cls[c as usize];
                let res = cl.client.execute_procedure(ConcatSecret {
                    location_a: a.get(),
                    location_b: b.get(),
                    output_location: o.get(),
                });
                produced(cl, &[a, b], o, res.map_err(|e| e.to_string()), &what)?;
            }
            Op::Gen { c, l, x } => {
                locs.insert(l);
                let cl = &mut cls[c as usize];
                let ty = if x { KeyType::X25519 } else { KeyType::Ed25519 };
                let res = cl.client.execute_procedure(GenerateKey { ty, output: l.get() });
                match (&res, cl.model.get(&l)) {
                    (Ok(()), _) => {
                        cl.model.insert(l, St::LiveRandom(32));
                        cl.vaults.insert(l.v);
                    }
                    (Err(_), Some(St::Revoked)) => {}
                    (Err(e), _) => fail!("write-refused", "{what}: {e}"),
                }
                touched.push((c, l));
            }
            Op::Revoke { c, l, proc_ } => {
                let cl = &mut cls[c as usize];
                let res = match (proc_, l.record_path()) {
                    (false, Some(r)) => cl.client.vault(vault_path(l.v)).revoke_secret(r).map_err(|e| e.to_string()),
                    _ => cl
                        .client
                        .execute_procedure(RevokeData { location: l.get(), should_gc: false })
                        .map_err(|e| e.to_string()),
                };
                if let Err(e) = res {
                    fail!("revoke-refused", "{what}: {e}");
                }
                if let Some(s) = cl.model.get_mut(&l) {
                    *s = St::Revoked;
                    revokes += 1;
                }
                locs.insert(l);
                touched.push((c, l));
            }
            Op::RevokeGc { c, l } => {
                let cl = &mut cls[c as usize];
                if let Err(e) = cl.client.execute_procedure(RevokeData { location: l.get(), should_gc: true }) {
                    fail!("revoke-refused", "{what}: {e}");
                }
                if cl.model.remove(&l).is_some() {
                    was_gced.insert((c, l));
                }
                gc(cl, c, l.v, &mut was_gced);
                locs.insert(l);
                touched.push((c, l));
            }
            Op::Delete { c, l } => {
                let cl = &mut cls[c as usize];
                let (l, rp) = match l.record_path() {
                    Some(r) => (l, r),
                    None => {
                        let l = Loc { v: l.v, r: 0 };
                        (l, l.record_path().unwrap())
                    }
                };
                match cl.client.vault(vault_path(l.v)).delete_secret(rp) {
                    Ok(b) => {
                        let sure = cl.vaults.contains(&l.v);
                        let may = cl.maybe.contains(&l.v);
                        if sure || !may {
                            ensure_eq!(b, sure, "delete-result", "{what}: delete_secret");
                        }
                    }
                    Err(e) => fail!("delete-refused", "{what}: {e}"),
                }
                if cl.model.remove(&l).is_some() {
                    was_gced.insert((c, l));
                }
                gc(cl, c, l.v, &mut was_gced);
                locs.insert(l);
                touched.push((c, l));
            }
            Op::Gc { c, v, proc_ } => {
                let cl = &mut cls[c as usize];
                let res = if proc_ {
                    cl.client.execute_procedure(GarbageCollect { vault_path: vault_path(v) }).map_err(|e| e.to_string())
                } else {
                    cl.client.vault(vault_path(v)).cleanup().map(|_| ()).map_err(|e| e.to_string())
                };
                if let Err(e) = res {
                    fail!("gc-refused", "{what}: {e}");
                }
                gc(cl, c, v, &mut was_gced);
            }
            Op::Handle { c } => {
                // any handle to the client sees the same state
                let h = hold.get_client(format!("client{c}")).map_err(|e| vh::Failure::new("handle", e.to_string()))?;
                cls[c as usize].client = h;
            }
        }
        for (c, l) in touched {
            check(&cls[c as usize], l, &what)?;
        }
        // one other location per step, all of them every few steps and at the end
        let all = i % 6 == 5 || i + 1 == case.ops.len();
        for (k, l) in locs.iter().enumerate() {
            if all || k == i % locs.len() {
                for cl in &cls {
                    check(cl, *l, &what)?;
                }
            }
        }
        if all {
            for cl in &cls {
                for v in 0..NV {
                    let e = cl.client.vault_exists(vault_path(v)).map_err(|e| vh::Failure::new("vault-exists", e.to_string()))?;
                    let sure = cl.vaults.contains(&v);
                    if sure || !cl.maybe.contains(&v) {
                        ensure_eq!(e, sure, "vault-exists", "{what}: vault_exists({v})");
                    }
                }
            }
        }
    }
    let nt = overwrites > 0 && revokes > 0;
    Ok(Out::new(nt)
        .tag_if(overwrites > 0, "overwrite")
        .tag_if(rewrites_after_gc > 0, "rewrite-after-gc")
        .tag_if(revokes > 0, "revoke")
        .tag(format!("len<{}", (case.ops.len() / 20 + 1) * 20)))
}

fn gc(cl: &mut Cl, c: u8, v: u8, was: &mut BTreeSet<(u8, Loc)>) {
    let gone: Vec<Loc> = cl.model.iter().filter(|(l, s)| l.v == v && matches!(s, St::Revoked)).map(|(l, _)| *l).collect();
    for l in gone {
        cl.model.remove(&l);
        was.insert((c, l));
    }
}

fn produced(cl: &mut Cl, src: &[Loc], target: Loc, res: Result<(), String>, what: &str) -> vh::R<()> {
    let mut val = vec![];
    let mut known = true;
    let mut ok = true;
    for l in src {
        match cl.model.get(l) {
            Some(St::Live(v)) => val.extend_from_slice(v),
            Some(St::LiveRandom(n)) => {
                known = false;
                val.extend(vec![0; *n]);
            }
            _ => ok = false,
        }
    }
    let target_revoked = matches!(cl.model.get(&target), Some(St::Revoked));
    match (ok, res) {
        (true, Ok(())) => {
            cl.vaults.insert(target.v);
            cl.model.insert(target, if known { St::Live(val) } else { St::LiveRandom(val.len()) });
        }
        (true, Err(_)) if target_revoked => {}
        (true, Err(e)) => fail!("procedure-refused", "{what}: {e}"),
        (false, Ok(())) => fail!("procedure-on-nothing", "{what}: succeeded although a source is missing"),
        (false, Err(_)) => {
            cl.maybe.insert(target.v);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- large vaults

fn many_run(case: &Many) -> vh::R<Out> {
    let hold = Stronghold::default();
    let cl = hold.create_client("client").unwrap();
    let mut g = case.rng();
    // live value, or None while revoked and not collected
    let mut m: BTreeMap<(u16, u16), Option<Vec<u8>>> = BTreeMap::new();
    let err = |s: &str, w: &str, e: String| vh::Failure::new(s, format!("{w}: {e}"));
    let (mut revoked, mut collected, mut over) = (0, 0, 0);
    let check = |m: &BTreeMap<(u16, u16), Option<Vec<u8>>>, v: u16, r: u16, what: &str| check_secret(&cl, &Many::location(v, r), m.get(&(v, r)).and_then(|x| x.as_deref()), what);
    for i in 0..case.n {
        let (v, r) = case.pick(&mut g);
        let vault = cl.vault(Many::vault(v));
        let kind = g.below(100);
        // mostly something that is there
        let (rv, rr) = match m.range((v, r)..).next() {
            Some((k, _)) => *k,
            None => (v, r),
        };
        let what = format!("op {i} of {case:?} ({kind}) at {v}/{r} or {rv}/{rr}");
        match kind {
            0..=69 => {
                let p = case.payload(&mut g);
                let res = vault.write_secret(Many::location(v, r), p.clone());
                match m.get(&(v, r)) {
                    Some(None) => ensure!(res.is_err(), "write-revoked", "{what}: a revoked location was written"),
                    old => {
                        res.map_err(|e| err("write-refused", &what, e.to_string()))?;
                        over += old.is_some() as usize;
                        m.insert((v, r), Some(p));
                    }
                }
            }
            70..=84 => {
                let res = cl.execute_procedure(RevokeData { location: Many::location(rv, rr), should_gc: false });
                if let Some(x) = m.get_mut(&(rv, rr)) {
                    if x.is_some() {
                        res.map_err(|e| err("revoke", &what, e.to_string()))?;
                    }
                    *x = None;
                    revoked += 1;
                }
            }
            85..=94 => {
                let had = m.contains_key(&(rv, rr));
                let res = match Many::location(rv, rr) {
                    Location::Generic { record_path, .. } => cl.vault(Many::vault(rv)).delete_secret(record_path).map(|_| ()).map_err(|e| e.to_string()),
                    location => cl.execute_procedure(RevokeData { location, should_gc: true }).map_err(|e| e.to_string()),
                };
                match res {
                    // deleting what is not there collects the vault as well
                    Ok(()) => {
                        m.remove(&(rv, rr));
                        m.retain(|k, x| k.0 != rv || x.is_some());
                        collected += 1;
                    }
                    Err(e) => ensure!(!had, "delete", "{what}: {e}"),
                }
            }
            _ => {
                let res = vault.cleanup().map_err(|e| err("collect", &what, e.to_string()))?;
                if res {
                    m.retain(|k, x| k.0 != v || x.is_some());
                }
                collected += 1;
            }
        }
        check(&m, v, r, &what)?;
        check(&m, rv, rr, &what)?;
        let (a, b) = case.pick(&mut g);
        check(&m, a, b, &what)?;
    }
    for v in 0..case.nv {
        for r in 0..case.nr {
            if g.below(4) == 0 || m.contains_key(&(v, r)) {
                check(&m, v, r, &format!("at the end of {case:?}: {v}/{r}"))?;
            }
        }
    }
    let live = m.values().filter(|x| x.is_some()).count();
    Ok(Out::new(live > 64 && revoked > 0)
        .tag_if(live > 256, "more than 256 secrets")
        .tag_if(m.keys().map(|k| k.0).collect::<BTreeSet<_>>().len() > 64, "more than 64 vaults")
        .tag_if(collected > 0, "collected")
        .tag_if(over > 0, "overwritten")
        .tag_if(m.values().flatten().any(|x| x.len() > 65_535), "long"))
}

fn main() {
    vh::main(vec![Property {
        id: "C01",
        level: "exploration",
        assumptions: &[
            "secrets are observed through the CompareSecret procedure (feature `insecure`) and record_exists",
            "histories are single-threaded (C23 covers concurrency)",
        ],
        facets: vec![Facet {
            name: "many",
            rule: "long random histories over up to 400 vaults or 700 records of one vault, secrets of up to 256 KiB; non-trivial = more than 64 live secrets and a revocation",
            cases: (60, 2000),
            batch: 5,
            racy: false,
            strategy: |t| many(if t == Tier::Quick { 1200 } else { 5000 }),
            run: many_run,
        }
        .boxed(),
        Facet {
            name: "history",
            rule: "random histories of write/overwrite/copy/concat/generate/revoke/delete/collect over 2 clients; non-trivial = at least one overwrite of a live secret and one revocation of an existing one",
            cases: (6000, 200000),
            batch: 20,
            racy: false,
            strategy,
            run,
        }
        .boxed()],
        findings: vec![],
    }])
}
