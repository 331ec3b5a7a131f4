//! C20: a vault opens only with its own key and its records cannot be swapped.
use chk::{
    engine::vault::{BlobId, BoxProvider, DbView, Key, NCKey, RecordHint, RecordId, VaultId},
    sh::Provider,
    *,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    convert::Infallible,
};
use vh::prelude::*;

type Db = DbView<Provider>;
type K = Key<Provider>;

/// Keys: two unrelated ones, and ones that differ from the first in a single bit.
fn key_bytes(k: u8) -> Vec<u8> {
    let mut b = bytes(32, 41);
    match k % 5 {
        0 => {}
        1 => b = bytes(32, 42),
        2 => b[31] ^= 1,
        3 => b[0] ^= 0x80,
        _ => b = vec![0; 32],
    }
    b
}
fn key(k: u8) -> K {
    Key::load(key_bytes(k)).expect("32 bytes")
}
fn id(n: u8) -> [u8; 24] {
    let mut b: [u8; 24] = bytes(24, 7).try_into().unwrap();
    match n % 4 {
        0 => {}
        1 => b[23] ^= 1,
        2 => b = [0; 24],
        _ => b[0] ^= 1,
    }
    b
}
fn vid(v: u8) -> VaultId {
    VaultId::load(&id(v)).unwrap()
}
fn rid(r: u8) -> RecordId {
    RecordId::load(&id(r)).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Init { v: u8, k: u8 },
    Write { v: u8, r: u8, k: u8, p: Pay, h: u8 },
    Guard { v: u8, r: u8, k: u8 },
    Two { a: (u8, u8, u8), b: (u8, u8, u8) },
    Exec { srcs: Vec<(u8, u8, u8)>, t: (u8, u8, u8), p: Pay, h: u8, fail: bool },
    Revoke { v: u8, r: u8, k: u8 },
    Gc { v: u8, k: u8 },
    Blob { v: u8, r: u8, k: u8 },
    List { v: u8, k: u8 },
    Hints { v: u8, k: u8 },
    Import { from: u8, to: u8, old: u8, new: u8, rs: Vec<u8> },
    Extend { from: u8, to: u8, k: u8 },
    Reload { how: u8 },
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
}

/// Vault `v` is mostly used with key `v % 2`.
fn vk() -> BoxedStrategy<(u8, u8)> {
    prop_oneof![6 => (0u8..3).prop_map(|v| (v, v % 2)), 1 => (0u8..4, 0u8..5)].boxed()
}
fn vrk() -> BoxedStrategy<(u8, u8, u8)> {
    (vk(), 0u8..4).prop_map(|((v, k), r)| (v, r, k)).boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        1 => vk().prop_map(|(v, k)| Op::Init { v, k }),
        8 => (vrk(), pay(), any::<u8>()).prop_map(|((v, r, k), p, h)| Op::Write { v, r, k, p, h }),
        3 => vrk().prop_map(|(v, r, k)| Op::Guard { v, r, k }),
        1 => (vrk(), vrk()).prop_map(|(a, b)| Op::Two { a, b }),
        2 => (prop::collection::vec(vrk(), 0..3), vrk(), pay(), any::<u8>(), prop::bool::weighted(0.2)).prop_map(|(srcs, t, p, h, fail)| Op::Exec { srcs, t, p, h, fail }),
        3 => vrk().prop_map(|(v, r, k)| Op::Revoke { v, r, k }),
        2 => vk().prop_map(|(v, k)| Op::Gc { v, k }),
        2 => vrk().prop_map(|(v, r, k)| Op::Blob { v, r, k }),
        2 => vk().prop_map(|(v, k)| Op::List { v, k }),
        2 => vk().prop_map(|(v, k)| Op::Hints { v, k }),
        3 => (vk(), vk(), prop::collection::vec(0u8..4, 0..4)).prop_map(|((from, old), (to, new), rs)| Op::Import { from, to, old, new, rs }),
        1 => (0u8..3, vk()).prop_map(|(from, (to, k))| Op::Extend { from, to, k }),
        1 => (0u8..2).prop_map(|how| Op::Reload { how }),
    ]
    .boxed()
}
fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 30 } else { 60 };
    prop_oneof![
        20 => prop::collection::vec(op(), 1..n).prop_map(|ops| Case { ops }),
        1 => (prop::collection::vec(op(), 1..n), any::<prop::sample::Index>()).prop_map(|(mut ops, i)| {
            let at = i.index(ops.len());
            ops.insert(at, Op::Clear);
            Case { ops }
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct Rec {
    val: Vec<u8>,
    hint: RecordHint,
    revoked: bool,
    blob: Option<BlobId>,
    /// sealed under this key and id; a record put in place by `extend` may be foreign
    key: Vec<u8>,
}
#[derive(Clone)]
struct Va {
    key: Vec<u8>,
    recs: BTreeMap<u8, Rec>,
}
type M = BTreeMap<u8, Va>;

fn hint(h: u8) -> RecordHint {
    let n = h as usize % 25;
    RecordHint::new(bytes(n, 100 + h as u64)).expect("at most 24 bytes")
}

/// Expected outcome of reading a record with a key.
fn readable<'a>(m: &'a M, (v, r, k): (u8, u8, u8)) -> Option<&'a Rec> {
    let va = m.get(&v)?;
    if va.key != key_bytes(k) {
        return None;
    }
    va.recs.get(&r).filter(|x| !x.revoked)
}

fn guard(db: &Db, (v, r, k): (u8, u8, u8)) -> Result<Vec<u8>, String> {
    let mut out = None;
    db.get_guard::<Infallible, _>(&key(k), vid(v), rid(r), |b| {
        out = Some(b.borrow().to_vec());
        Ok(())
    })
    .map_err(|e| e.to_string())?;
    out.ok_or_else(|| "guard was not called".into())
}

fn check(db: &Db, m: &mut M, blobs: &mut BTreeSet<Vec<u8>>, what: &str) -> vh::R<()> {
    let got: BTreeSet<[u8; 24]> = db.list_vaults().into_iter().map(|v| v.0.as_ref().try_into().unwrap()).collect();
    let exp: BTreeSet<[u8; 24]> = m.keys().map(|&v| id(v)).collect();
    ensure!(got == exp, "vaults", "{what}: list_vaults is {} vaults, expected {}", got.len(), exp.len());
    for v in 0..4u8 {
        ensure_eq!(db.contains_vault(&vid(v)), m.contains_key(&v), "contains-vault", "{what}: vault {v}");
        for r in 0..4u8 {
            let live = m.get(&v).and_then(|x| x.recs.get(&r)).map_or(false, |x| !x.revoked);
            ensure_eq!(db.contains_record(vid(v), rid(r)), live, "contains-record", "{what}: vault {v} record {r}");
        }
        let Some(va) = m.get_mut(&v) else {
            ensure!(db.list_records(&vid(v)).is_empty(), "list-records", "{what}: records in absent vault {v}");
            continue;
        };
        let k: K = Key::load(va.key.clone()).unwrap();
        let mut hints: Vec<_> = db.list_hints_and_ids(&k, vid(v));
        hints.sort();
        let mut exp: Vec<_> = va.recs.iter().filter(|x| !x.1.revoked).map(|(&r, x)| (rid(r), x.hint)).collect();
        exp.sort();
        ensure!(hints == exp, "hints", "{what}: vault {v} lists {hints:?}, expected {exp:?}");
        let mut list = db.list_records_with_blob_id(&k, vid(v)).map_err(|e| vh::Failure::new("list", format!("{what}: vault {v}: {e}")))?;
        list.sort();
        let ids: Vec<RecordId> = list.iter().map(|x| x.0).collect();
        let mut exp: Vec<RecordId> = exp.iter().map(|x| x.0).collect();
        exp.sort();
        ensure!(ids == exp, "list", "{what}: vault {v} lists {ids:?} with blob ids, expected {exp:?}");
        for (&r, x) in va.recs.iter_mut().filter(|x| !x.1.revoked) {
            let b = db.get_blob_id(&k, vid(v), rid(r)).map_err(|e| vh::Failure::new("blob-id", format!("{what}: vault {v} record {r}: {e}")))?;
            ensure!(list.contains(&(rid(r), b)), "blob-id", "{what}: blob id of vault {v} record {r} differs between get_blob_id and the list");
            match x.blob {
                Some(y) => ensure!(y == b, "blob-id-changed", "{what}: the blob id of vault {v} record {r} changed without a write"),
                None => {
                    ensure!(blobs.insert(b.as_ref().to_vec()), "blob-id-reused", "{what}: after a write, vault {v} record {r} has a blob id that was used before");
                    x.blob = Some(b);
                }
            }
            let mut out = None;
            let g = db.get_guard::<Infallible, _>(&k, vid(v), rid(r), |b| {
                out = Some(b.borrow().to_vec());
                Ok(())
            });
            ensure!(g.is_ok() && out.as_ref() == Some(&x.val), "value", "{what}: vault {v} record {r} does not read as last written: {g:?}");
        }
    }
    Ok(())
}

fn run(c: &Case) -> vh::R<Out> {
    let mut db = Db::new();
    let mut m: M = BTreeMap::new();
    let mut blobs = BTreeSet::new();
    let (mut wrong, mut right) = (0, 0);
    for (i, o) in c.ops.iter().enumerate() {
        let what = format!("op {i} {o:?}");
        let name = format!("{o:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>();
        vh::no_panic(|| step(&mut db, &mut m, &mut wrong, &mut right, o, &what)).map_err(|p| vh::Failure::new(format!("panic:{name}"), format!("{what}: {p}")))??;
        check(&db, &mut m, &mut blobs, &format!("after {what}"))?;
    }
    Ok(Out::new(right > 0 && wrong > 0).tag_if(wrong > 0, "refused").tag_if(right > 0, "accepted"))
}

fn put(m: &mut M, v: u8, r: u8, k: u8, val: Vec<u8>, h: u8) -> bool {
    let va = m.entry(v).or_insert_with(|| Va { key: key_bytes(k), recs: BTreeMap::new() });
    if va.key != key_bytes(k) {
        return false;
    }
    match va.recs.get_mut(&r) {
        Some(x) if x.revoked => false,
        Some(x) => {
            x.val = val;
            x.blob = None;
            true
        }
        None => {
            va.recs.insert(r, Rec { val, hint: hint(h), revoked: false, blob: None, key: key_bytes(k) });
            true
        }
    }
}

fn step(db: &mut Db, m: &mut M, wrong: &mut u32, right: &mut u32, o: &Op, what: &str) -> vh::R<()> {
    let mut judge = |ok: bool, exp: bool, e: String| -> vh::R<()> {
        if exp {
            *right += 1;
            ensure!(ok, "refused", "{what}: refused: {e}");
        } else {
            *wrong += 1;
            ensure!(!ok, "accepted", "{what}: accepted");
        }
        Ok(())
    };
    match o {
        Op::Init { v, k } => {
            db.init_vault(&key(*k), vid(*v));
            m.entry(*v).or_insert_with(|| Va { key: key_bytes(*k), recs: BTreeMap::new() });
        }
        Op::Write { v, r, k, p, h } => {
            let res = db.write(&key(*k), vid(*v), rid(*r), &p.bytes(), hint(*h));
            let exp = put(m, *v, *r, *k, p.bytes(), *h);
            judge(res.is_ok(), exp, format!("{res:?}"))?;
        }
        Op::Guard { v, r, k } => {
            let res = guard(db, (*v, *r, *k));
            let exp = readable(m, (*v, *r, *k)).map(|x| x.val.clone());
            judge(res.is_ok(), exp.is_some(), format!("{res:?}"))?;
            if let (Ok(x), Some(y)) = (res, exp) {
                ensure!(x == y, "value", "{what}: reads other data");
            }
        }
        Op::Two { a, b } => {
            let mut out = None;
            let res = db.get_guards::<Infallible, _, 2>([(key(a.2), vid(a.0), rid(a.1)), (key(b.2), vid(b.0), rid(b.1))], |[x, y]| {
                out = Some((x.borrow().to_vec(), y.borrow().to_vec()));
                Ok(())
            });
            let exp = readable(m, *a).and_then(|x| readable(m, *b).map(|y| (x.val.clone(), y.val.clone())));
            judge(res.is_ok(), exp.is_some(), format!("{res:?}"))?;
            ensure!(out == exp, "value", "{what}: the guards hold other data");
        }
        Op::Exec { srcs, t, p, h, fail } => {
            let mut called = None;
            let mut f = |bs: Vec<Vec<u8>>| -> Result<Vec<u8>, String> {
                called = Some(bs);
                if *fail {
                    Err("no".into())
                } else {
                    Ok(p.bytes())
                }
            };
            let s: Vec<_> = srcs.iter().map(|s| (key(s.2), vid(s.0), rid(s.1))).collect();
            let res = match s.len() {
                0 => db.exec_procedure::<String, _, 0>([], &key(t.2), vid(t.0), rid(t.1), hint(*h), |_| f(vec![])).map_err(|e| e.to_string()),
                1 => db.exec_procedure::<String, _, 1>([s[0].clone()], &key(t.2), vid(t.0), rid(t.1), hint(*h), |[a]| f(vec![a.borrow().to_vec()])).map_err(|e| e.to_string()),
                _ => db
                    .exec_procedure::<String, _, 2>([s[0].clone(), s[1].clone()], &key(t.2), vid(t.0), rid(t.1), hint(*h), |[a, b]| {
                        f(vec![a.borrow().to_vec(), b.borrow().to_vec()])
                    })
                    .map_err(|e| e.to_string()),
            };
            let vals: Option<Vec<Vec<u8>>> = srcs.iter().map(|s| readable(m, *s).map(|x| x.val.clone())).collect();
            if let (None, Some(c)) = (&vals, &called) {
                fail!("accepted", "{what}: the procedure was run on {} records although one of them is not readable", c.len());
            }
            if let (Some(v), Some(c)) = (&vals, &called) {
                ensure!(v == c, "value", "{what}: the procedure was given other data");
            }
            let exp = vals.is_some() && !*fail && put(m, t.0, t.1, t.2, p.bytes(), *h);
            judge(res.is_ok(), exp, format!("{res:?}"))?;
        }
        Op::Revoke { v, r, k } => {
            let res = db.revoke_record(&key(*k), vid(*v), rid(*r));
            let exp = match m.get_mut(v) {
                None => true,
                Some(va) if va.key != key_bytes(*k) => false,
                Some(va) => {
                    if let Some(x) = va.recs.get_mut(r) {
                        x.revoked = true;
                    }
                    true
                }
            };
            judge(res.is_ok(), exp, format!("{res:?}"))?;
        }
        Op::Gc { v, k } => {
            db.garbage_collect_vault(&key(*k), vid(*v));
            if let Some(va) = m.get_mut(v).filter(|x| x.key == key_bytes(*k)) {
                va.recs.retain(|_, x| !x.revoked);
            }
            // collected records are gone, others are kept
            for (v, va) in m.iter() {
                let mut l = db.list_records(&vid(*v));
                l.sort();
                let mut e: Vec<_> = va.recs.keys().map(|&r| rid(r)).collect();
                e.sort();
                ensure!(l == e, "collect", "{what}: vault {v} holds {} records, expected {}", l.len(), e.len());
            }
        }
        Op::Blob { v, r, k } => {
            let res = db.get_blob_id(&key(*k), vid(*v), rid(*r));
            let exp = readable(m, (*v, *r, *k));
            judge(res.is_ok(), exp.is_some(), format!("{res:?}"))?;
        }
        Op::List { v, k } => {
            let res = db.list_records_with_blob_id(&key(*k), vid(*v));
            match m.get(v) {
                Some(va) if va.key == key_bytes(*k) => ensure!(res.is_ok(), "refused", "{what}: refused: {res:?}"),
                _ => {
                    *wrong += 1;
                    if let Ok(l) = res {
                        ensure!(l.is_empty(), "accepted", "{what}: {} blob ids are listed with a wrong key", l.len());
                    }
                }
            }
        }
        Op::Hints { v, k } => {
            let l = db.list_hints_and_ids(&key(*k), vid(*v));
            match m.get(v) {
                Some(va) if va.key == key_bytes(*k) => {}
                _ => {
                    *wrong += 1;
                    ensure!(l.is_empty(), "accepted", "{what}: {} hints are listed with a wrong key", l.len());
                }
            }
        }
        Op::Import { from, to, old, new, rs } => {
            let recs = db.export_records(vid(*from), rs.iter().map(|&r| rid(r)));
            let Some(src) = m.get(from).cloned() else {
                ensure!(recs.is_err(), "accepted", "{what}: records of an absent vault were exported");
                return Ok(());
            };
            let recs = recs.map_err(|e| vh::Failure::new("refused", format!("{what}: export: {e}")))?;
            let sel: Vec<u8> = rs.iter().copied().filter(|r| src.recs.contains_key(r)).collect();
            ensure_eq!(recs.len(), sel.len(), "export", "{what}: number of exported records");
            let res = db.import_records(&key(*old), &key(*new), vid(*to), recs);
            let sealed = sel.iter().all(|r| !src.recs[r].revoked && key_bytes(*old) == src.key);
            let open = m.get(to).map_or(true, |t| t.key == key_bytes(*new));
            let exp = sealed && open;
            judge(res.is_ok(), exp, format!("{res:?}"))?;
            if exp {
                let t = m.entry(*to).or_insert_with(|| Va { key: key_bytes(*new), recs: BTreeMap::new() });
                for r in sel {
                    let mut x = src.recs[&r].clone();
                    x.key = key_bytes(*new);
                    // the blob id is that of the source
                    t.recs.insert(r, x);
                }
            }
        }
        Op::Extend { from, to, k } => {
            // vaults are also public by themselves; entries sealed under another key must not become readable
            let all = db.export_all();
            let exp: BTreeMap<[u8; 24], usize> = m.iter().map(|(&v, x)| (id(v), x.recs.len())).collect();
            let got: BTreeMap<[u8; 24], usize> = all.iter().map(|(v, l)| (v.0.as_ref().try_into().unwrap(), l.len())).collect();
            ensure!(got == exp, "export", "{what}: export_all gives {got:?}, expected {exp:?}");
            let mut other = db.clone();
            if let (Some(l), Some(t)) = (all.get(&vid(*from)), other.vaults.get_mut(&vid(*to))) {
                let res = t.extend(&key(*k), l.iter().map(|(r, x)| ((*r).into(), x.clone())));
                let own = m[to].key == key_bytes(*k);
                judge(res.is_ok(), own, format!("{res:?}"))?;
                if own && m[from].key != m[to].key {
                    for &r in m[from].recs.keys() {
                        if let Ok(x) = guard(&other, (*to, r, *k)) {
                            fail!("moved-vault", "{what}: record {r} of vault {from} reads as {} bytes in vault {to} with the key of that vault", x.len());
                        }
                    }
                }
            }
        }
        Op::Reload { how } => {
            *db = match how {
                0 => db.clone(),
                _ => {
                    let b = bincode::serialize(db).map_err(|e| vh::Failure::new("serialize", e.to_string()))?;
                    bincode::deserialize(&b).map_err(|e| vh::Failure::new("deserialize", e.to_string()))?
                }
            }
        }
        Op::Clear => {
            db.clear();
            m.clear();
        }
    }
    Ok(())
}

// -------------------------------------------------------------------------------------------------
// damaged and exchanged records, made in the serialised form

#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct MRec {
    id: [u8; 24],
    data: Vec<u8>,
    revoke: Option<Vec<u8>>,
    blob: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone)]
struct MVault {
    key: Vec<u8>,
    entries: HashMap<[u8; 24], MRec>,
}
#[derive(Serialize, Deserialize, Clone)]
struct MDb {
    vaults: HashMap<[u8; 24], MVault>,
}

/// One record as (vault, record), modulo those that exist.
type At = (u8, u8);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum T {
    /// the entry of `a` is also found at `b`; with the id inside kept or adapted
    Move { a: At, b: At, adapt: bool },
    Swap { a: At, b: At, adapt: bool },
    SwapBlob(At, At),
    SwapData(At, At),
    CopyBlob(At, At),
    FlipBlob(At, u32, u8),
    FlipData(At, u32, u8),
    FlipId(At, u8, bool),
    CutBlob(At, u32),
    CutData(At, u32),
    ExtendBlob(At, Vec<u8>),
    ExtendData(At, Vec<u8>),
    OldBlob(At),
    OldData(At),
    Revoke(At, Vec<u8>),
    BlobAsData(At),
    DataAsBlob(At),
    NewKey(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    /// values of the records of two vaults; a second payload is a later write
    recs: Vec<Vec<(Pay, Option<Pay>)>>,
    ts: Vec<T>,
    then: Vec<(u8, At, Pay)>,
}
fn tstrategy(_: Tier) -> BoxedStrategy<TCase> {
    let at = || (0u8..2, 0u8..4);
    let p = || prop_oneof![4 => (0u32..40, 0u16..5000).prop_map(|(len, s)| Pay { len, s }), 1 => pay()];
    let t = prop_oneof![
        2 => (at(), at(), any::<bool>()).prop_map(|(a, b, adapt)| T::Move { a, b, adapt }),
        2 => (at(), at(), any::<bool>()).prop_map(|(a, b, adapt)| T::Swap { a, b, adapt }),
        2 => (at(), at()).prop_map(|(a, b)| T::SwapBlob(a, b)),
        2 => (at(), at()).prop_map(|(a, b)| T::SwapData(a, b)),
        1 => (at(), at()).prop_map(|(a, b)| T::CopyBlob(a, b)),
        3 => (at(), any::<u32>(), 0u8..8).prop_map(|(a, i, b)| T::FlipBlob(a, i, b)),
        3 => (at(), any::<u32>(), 0u8..8).prop_map(|(a, i, b)| T::FlipData(a, i, b)),
        1 => (at(), any::<u8>(), any::<bool>()).prop_map(|(a, i, b)| T::FlipId(a, i, b)),
        2 => (at(), any::<u32>()).prop_map(|(a, i)| T::CutBlob(a, i)),
        2 => (at(), any::<u32>()).prop_map(|(a, i)| T::CutData(a, i)),
        1 => (at(), prop::collection::vec(any::<u8>(), 1..20)).prop_map(|(a, i)| T::ExtendBlob(a, i)),
        1 => (at(), prop::collection::vec(any::<u8>(), 1..20)).prop_map(|(a, i)| T::ExtendData(a, i)),
        2 => at().prop_map(T::OldBlob),
        2 => at().prop_map(T::OldData),
        1 => (at(), prop::collection::vec(any::<u8>(), 0..60)).prop_map(|(a, i)| T::Revoke(a, i)),
        1 => at().prop_map(T::BlobAsData),
        1 => at().prop_map(T::DataAsBlob),
        1 => (0u8..2, 0u8..5).prop_map(|(v, k)| T::NewKey(v, k)),
    ];
    (
        prop::collection::vec(prop::collection::vec((p(), prop::option::of(p())), 1..4), 2),
        prop::collection::vec(t, 1..4),
        prop::collection::vec((0u8..5, at(), p()), 0..4),
    )
        .prop_map(|(recs, ts, then)| TCase { recs, ts, then })
        .boxed()
}

fn mirror(db: &Db) -> Option<MDb> {
    let b = bincode::serialize(db).ok()?;
    let m: MDb = bincode::deserialize(&b).ok()?;
    (bincode::serialize(&m).ok()?.len() == b.len()).then_some(m)
}

fn run_tamper(c: &TCase) -> vh::R<Out> {
    let mut db = Db::new();
    let e = |e: engine::vault::RecordError<_>| vh::Failure::new("write", format!("{e:?}"));
    // genuine versions: (vault, record id) -> (data, blob, value)
    let mut genuine: HashMap<([u8; 24], [u8; 24]), Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>> = HashMap::new();
    let mut first = None;
    for round in 0..2 {
        for (v, rs) in c.recs.iter().enumerate() {
            for (r, (p, q)) in rs.iter().enumerate() {
                let val = match (round, q) {
                    (0, _) => p.bytes(),
                    (_, Some(q)) => q.bytes(),
                    _ => continue,
                };
                db.write(&key(v as u8), vid(v as u8), rid(r as u8), &val, hint(r as u8)).map_err(e)?;
                let Some(m) = mirror(&db) else { return Ok(Out::new(false).tag("other-format")) };
                let x = &m.vaults[&id(v as u8)].entries[&id(r as u8)];
                genuine.entry((id(v as u8), id(r as u8))).or_default().push((x.data.clone(), x.blob.clone(), val));
            }
        }
        if round == 0 {
            first = mirror(&db);
        }
    }
    let (old, mut m) = (first.unwrap(), mirror(&db).unwrap());
    // existing records by index
    let pos = |a: &At| -> ([u8; 24], [u8; 24]) {
        let v = a.0 as usize % c.recs.len();
        (id(v as u8), id((a.1 as usize % c.recs[v].len()) as u8))
    };
    for t in &c.ts {
        fn get<'a>(m: &'a mut MDb, p: &([u8; 24], [u8; 24])) -> Option<&'a mut MRec> {
            m.vaults.get_mut(&p.0).and_then(|v| v.entries.get_mut(&p.1))
        }
        let full = |a: &At| (id(a.0 % 2), id(a.1)); // also ids without a record
        match t {
            T::Move { a, b, adapt } => {
                let (p, q) = (pos(a), full(b));
                if let Some(mut x) = get(&mut m, &p).cloned() {
                    if *adapt {
                        x.id = q.1;
                    }
                    m.vaults.get_mut(&q.0).unwrap().entries.insert(q.1, x);
                }
            }
            T::Swap { a, b, adapt } => {
                let (p, q) = (pos(a), pos(b));
                if let (Some(mut x), Some(mut y)) = (get(&mut m, &p).cloned(), get(&mut m, &q).cloned()) {
                    if *adapt {
                        x.id = q.1;
                        y.id = p.1;
                    }
                    *get(&mut m, &p).unwrap() = y;
                    *get(&mut m, &q).unwrap() = x;
                }
            }
            T::SwapBlob(a, b) | T::CopyBlob(a, b) => {
                let (p, q) = (pos(a), pos(b));
                if let (Some(x), Some(y)) = (get(&mut m, &p).cloned(), get(&mut m, &q).cloned()) {
                    get(&mut m, &p).unwrap().blob = y.blob;
                    if matches!(t, T::SwapBlob(..)) {
                        get(&mut m, &q).unwrap().blob = x.blob;
                    }
                }
            }
            T::SwapData(a, b) => {
                let (p, q) = (pos(a), pos(b));
                if let (Some(x), Some(y)) = (get(&mut m, &p).cloned(), get(&mut m, &q).cloned()) {
                    get(&mut m, &p).unwrap().data = y.data;
                    get(&mut m, &q).unwrap().data = x.data;
                }
            }
            T::FlipId(a, i, inside) => {
                let p = pos(a);
                if let Some(mut x) = get(&mut m, &p).cloned() {
                    let mut n = p.1;
                    n[*i as usize % 24] ^= 1 << (i % 8);
                    if *inside {
                        get(&mut m, &p).unwrap().id = n;
                    } else {
                        x.id = n;
                        m.vaults.get_mut(&p.0).unwrap().entries.insert(n, x);
                    }
                }
            }
            T::NewKey(v, k) => {
                if let Some(x) = m.vaults.get_mut(&id(*v)) {
                    x.key = key_bytes(*k);
                }
            }
            T::FlipBlob(a, ..) | T::FlipData(a, ..) | T::CutBlob(a, _) | T::CutData(a, _) | T::ExtendBlob(a, _) | T::ExtendData(a, _) | T::OldBlob(a) | T::OldData(a) | T::Revoke(a, _) | T::BlobAsData(a) | T::DataAsBlob(a) => {
                let p = pos(a);
                let o = old.vaults[&p.0].entries[&p.1].clone();
                if let Some(x) = get(&mut m, &p) {
                    let flip = |b: &mut Vec<u8>, i: u32, j: u8| {
                        let n = b.len();
                        if n > 0 {
                            b[i as usize % n] ^= 1 << j
                        }
                    };
                    match t {
                        T::FlipBlob(_, i, j) => flip(&mut x.blob, *i, *j),
                        T::FlipData(_, i, j) => flip(&mut x.data, *i, *j),
                        T::CutBlob(_, i) => x.blob.truncate(*i as usize % (x.blob.len() + 1)),
                        T::CutData(_, i) => x.data.truncate(*i as usize % (x.data.len() + 1)),
                        T::ExtendBlob(_, b) => x.blob.extend(b),
                        T::ExtendData(_, b) => x.data.extend(b),
                        T::OldBlob(_) => x.blob = o.blob,
                        T::OldData(_) => x.data = o.data,
                        T::Revoke(_, b) => x.revoke = Some(b.clone()),
                        T::BlobAsData(_) => x.data = x.blob.clone(),
                        T::DataAsBlob(_) => x.blob = x.data.clone(),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
    let mut db: Db = bincode::deserialize(&bincode::serialize(&m).unwrap()).map_err(|e| vh::Failure::new("deserialize", e.to_string()))?;
    // the value that a record may have: that of a genuine version sealed under this key for this id
    let value = |m: &MDb, v: &[u8; 24], r: &[u8; 24]| -> Option<Vec<u8>> {
        let va = m.vaults.get(v)?;
        let x = va.entries.get(r)?;
        if x.id != *r || x.revoke.is_some() {
            return None;
        }
        genuine.iter().filter(|((gv, gr), _)| gr == r && key_bytes(c_vault_key(gv)) == va.key).flat_map(|x| x.1).find(|g| g.0 == x.data && g.1 == x.blob).map(|g| g.2.clone())
    };
    let mut refused = 0;
    let all = |db: &Db, m: &MDb, refused: &mut u32, what: &str| -> vh::R<()> {
        for (v, va) in &m.vaults {
            let k: K = Key::load(va.key.clone()).unwrap();
            let v_ = VaultId::load(v).unwrap();
            vh::no_panic(|| {
                let _ = db.list_hints_and_ids(&k, v_);
                let _ = db.list_records_with_blob_id(&k, v_);
                let _ = db.list_records(&v_);
            })
            .map_err(|p| vh::Failure::new("panic:list", format!("{what}: {p}")))?;
            for r in va.entries.keys() {
                let r_ = RecordId::load(r).unwrap();
                let mut out = None;
                let res = vh::no_panic(|| {
                    let _ = db.get_blob_id(&k, v_, r_);
                    db.get_guard::<Infallible, _>(&k, v_, r_, |b| {
                        out = Some(b.borrow().to_vec());
                        Ok(())
                    })
                })
                .map_err(|p| vh::Failure::new("panic:read", format!("{what}: {p}")))?;
                match (value(m, v, r), res, out) {
                    (Some(x), Ok(()), Some(y)) => ensure!(x == y, "value", "{what}: a record reads as other than what was written"),
                    (Some(_), r, _) => fail!("refused", "{what}: an untouched record is not readable: {r:?}"),
                    (None, Err(_), None) => *refused += 1,
                    (None, _, y) => fail!("accepted-tampered", "{what}: a record whose sealed parts were changed or moved reads as {y:?}"),
                }
            }
        }
        Ok(())
    };
    let what = format!("{:?}", c.ts);
    all(&db, &m, &mut refused, &what)?;
    // later operations on the damaged vaults do not crash, and never give out a forged value
    for (how, at, p) in &c.then {
        let (v, r) = pos(at);
        let (v_, r_) = (VaultId::load(&v).unwrap(), RecordId::load(&r).unwrap());
        let k: K = Key::load(m.vaults[&v].key.clone()).unwrap();
        let what = format!("{what}, then operation {how} on {at:?}");
        let genuine_value = value(&m, &v, &r);
        let mut target = Db::new();
        let tk = key(3);
        let before = bincode::serialize(&db).unwrap().len();
        let res = vh::no_panic(|| -> Result<(), String> {
            match how {
                0 => db.write(&k, v_, r_, &p.bytes(), hint(1)).map_err(|e| format!("{e:?}")),
                1 => db.revoke_record(&k, v_, r_).map_err(|e| format!("{e:?}")),
                2 => {
                    db.garbage_collect_vault(&k, v_);
                    Ok(())
                }
                _ => {
                    let l = db.export_records(v_, [r_]).map_err(|e| format!("{e:?}"))?;
                    target.import_records(&k, &tk, v_, l).map_err(|e| format!("{e:?}"))
                }
            }
        })
        .map_err(|p| vh::Failure::new("panic:later", format!("{what}: {p}")))?;
        if *how >= 3 {
            let mut out = None;
            let g = target.get_guard::<Infallible, _>(&tk, v_, r_, |b| {
                out = Some(b.borrow().to_vec());
                Ok(())
            });
            match (&genuine_value, m.vaults[&v].entries.get(&r), &out) {
                (Some(x), _, Some(y)) => ensure!(x == y, "value", "{what}: the imported record reads as other than what was written"),
                (Some(_), _, None) => fail!("refused", "{what}: a genuine record is not imported: {res:?} {g:?}"),
                (None, _, Some(_)) => fail!("accepted-tampered", "{what}: a record whose sealed parts were changed was imported and is readable"),
                (None, _, None) => {}
            }
            ensure!(bincode::serialize(&db).unwrap().len() == before, "source-changed", "{what}: exporting changed the vault");
            continue;
        }
        match how {
            0 => {
                // after a write that succeeds, the record has the new value
                if res.is_ok() {
                    let mut out = None;
                    let _ = db.get_guard::<Infallible, _>(&k, v_, r_, |b| {
                        out = Some(b.borrow().to_vec());
                        Ok(())
                    });
                    ensure!(out == Some(p.bytes()), "write", "{what}: the write succeeds, but the record reads as {out:?}");
                } else if genuine_value.is_some() {
                    fail!("refused", "{what}: writing to an untouched record is refused: {res:?}");
                }
                break; // the mirror no longer matches
            }
            _ => break,
        }
    }
    Ok(Out::new(refused > 0).tag_if(refused == 0, "all-genuine"))
}
/// Keys are equal when their bytes are, ordered as these, and a sealed vault key opens only with the key and data it was sealed with.
fn key_relations(a: u8, b: u8, ad: &[u8], ad2: &[u8]) -> vh::R<()> {
    use std::hash::{Hash, Hasher};
    let (x, y) = (key(a), key(b));
    let same = key_bytes(a) == key_bytes(b);
    let h = |k: &K| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut s);
        s.finish()
    };
    ensure_eq!(x == y, same, "key-eq", "equality of keys {a} and {b}");
    ensure_eq!(h(&x) == h(&y), same, "key-hash", "hashes of keys {a} and {b}");
    ensure_eq!(x.cmp(&y), key_bytes(a).cmp(&key_bytes(b)), "key-order", "order of keys {a} and {b}");
    let nc = |k: u8| NCKey::<Provider>::load(key_bytes(k)).expect("32 bytes");
    let (n, m) = (nc(a), nc(b));
    ensure_eq!(n == m, same, "key-eq", "equality of split keys {a} and {b}");
    ensure_eq!(n.cmp(&m), key_bytes(a).cmp(&key_bytes(b)), "key-order", "order of split keys {a} and {b}");
    ensure!(n.clone() == n, "key-eq", "a split key differs from its copy");
    for len in [0usize, 31, 33] {
        ensure!(NCKey::<Provider>::load(vec![1; len]).is_none() && K::load(vec![1; len]).is_none(), "key-size", "a key of {len} bytes is taken");
    }
    let sealed = n.encrypt_key(&y, ad).map_err(|e| vh::Failure::new("seal", format!("{e:?}")))?;
    match n.clone().decrypt_key(sealed.clone(), ad) {
        Ok(k) => ensure!(k == y, "key-open", "another key is in the sealed key"),
        Err(e) => fail!("key-open", "the sealed key does not open: {e:?}"),
    }
    ensure!(ad == ad2 || n.decrypt_key(sealed.clone(), ad2).is_err(), "key-accepted", "a sealed key opens with other associated data");
    ensure!(same || m.decrypt_key(sealed, ad).is_err(), "key-accepted", "a sealed key opens with another key");
    Ok(())
}

/// The key that the records of a vault were sealed with.
fn c_vault_key(v: &[u8; 24]) -> u8 {
    (0..2).find(|&i| id(i) == *v).unwrap()
}

// -------------------------------------------------------------------------------------------------
// the provider's sealed boxes by themselves

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BoxCase {
    p: Pay,
    ad: Pay,
    k: u8,
    m: Vec<(u8, u32, u8)>,
    k2: u8,
    ad2: Option<Pay>,
}
fn bstrategy(_: Tier) -> BoxedStrategy<BoxCase> {
    let ad = || (0u32..40, 0u16..40).prop_map(|(len, s)| Pay { len, s });
    (pay(), ad(), 0u8..5, prop::collection::vec((0u8..4, any::<u32>(), any::<u8>()), 0..3), prop_oneof![2 => Just(9u8), 1 => 0u8..5], prop::option::weighted(0.3, ad()))
        .prop_map(|(p, ad, k, m, k2, ad2)| BoxCase { p, ad, k, m, k2, ad2 })
        .boxed()
}
fn run_box(c: &BoxCase) -> vh::R<Out> {
    let (p, ad) = (c.p.bytes(), c.ad.bytes());
    let s: Vec<u8> = Provider::box_seal(&key(c.k), &ad, &p).map_err(|e| vh::Failure::new("seal", e.to_string()))?;
    let s2: Vec<u8> = (&p[..]).encrypt_raw(&key(c.k), &ad)?;
    ensure_eq!(s.len(), p.len() + Provider::box_overhead(), "size", "sealed size");
    ensure!(s != s2, "nonce-reuse", "sealing the same data twice gives the same box");
    let mut x = s.clone();
    for (how, i, b) in &c.m {
        let n = x.len();
        match how {
            0 if n > 0 => x[*i as usize % n] ^= 1 << (b % 8),
            1 => x.truncate(*i as usize % (n + 1)),
            2 => x.push(*b),
            3 if n > 0 => {
                let j = *i as usize % 40 % n;
                x[j] = *b
            }
            _ => {}
        }
    }
    let k2 = if c.k2 == 9 { c.k } else { c.k2 };
    let ad2 = c.ad2.as_ref().map_or(ad.clone(), |a| a.bytes());
    if c.p.s % 16 == 5 {
        key_relations(c.k, k2, &ad, &ad2)?;
    }
    let r = vh::no_panic(|| Provider::box_open(&key(k2), &ad2, &x)).map_err(|m| vh::Failure::new("panic:open", format!("{c:?}: {m}")))?;
    if x == s && key_bytes(k2) == key_bytes(c.k) && ad2 == ad {
        ensure!(r.as_ref().ok() == Some(&p), "open", "{c:?}: the box does not open");
        Ok(Out::new(false).tag("genuine"))
    } else {
        ensure!(r.is_err(), "accepted", "{c:?}: a changed box, key or associated data is accepted");
        Ok(Out::new(true))
    }
}
trait Raw {
    fn encrypt_raw(&self, k: &K, ad: &[u8]) -> vh::R<Vec<u8>>;
}
impl Raw for &[u8] {
    fn encrypt_raw(&self, k: &K, ad: &[u8]) -> vh::R<Vec<u8>> {
        Provider::box_seal(k, ad, self).map_err(|e| vh::Failure::new("seal", e.to_string()))
    }
}

fn main() {
    vh::main(vec![Property {
        id: "C20",
        level: "exploration",
        assumptions: &["two vaults have different keys, as the client makes them (a record is bound to its vault by the vault's key)",
            "replacing a whole record by an older genuine version of itself, or removing its revocation mark, is not detected by design and not judged",
            "the records of a vault are changed through the serialised form of the vault; if that form is another one, those cases are skipped"],
        facets: vec![
            Facet { name: "keys", rule: "histories over three or four vaults of an engine view with right, wrong and nearly right keys, compared with a model after every operation; non-trivial = an operation was accepted and another refused", cases: (8000, 200000), batch: 20, racy: false, strategy, run }.boxed(),
            Facet { name: "tamper", rule: "vaults whose records were moved, exchanged, cut, flipped or mixed with their older versions in the serialised form; non-trivial = a record had to be refused", cases: (20000, 600000), batch: 50, racy: false, strategy: tstrategy, run: run_tamper }.boxed(),
            Facet { name: "box", rule: "sealed boxes opened unchanged, changed, with other keys and associated data; non-trivial = something differs", cases: (60000, 1000000), batch: 500, racy: false, strategy: bstrategy, run: run_box }.boxed(),
        ],
        findings: vec![],
    }])
}
