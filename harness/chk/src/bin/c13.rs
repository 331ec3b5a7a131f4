//! C13: secrets stay out of files, serialised vaults, debug output and errors; every encryption is fresh.
use chk::engine::runtime::{
    locked_memory::LockedMemory,
    memories::{
        buffer::Buffer,
        file_memory::FileMemory,
        frag::FragStrategy,
        noncontiguous_memory::{NCConfig, NonContiguousMemory},
        ram_memory::RamMemory,
    },
};
use chk::engine::{snapshot as snap, vault::*};
use chk::{procs, refimpl, sh::procedures::*, sh::*, *};
use crypto::keys::x25519;
use procs::{Model, Slot, Spec, Val};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Debug, Write as _};
use vh::prelude::*;

const W: usize = 8;

fn e<E: std::fmt::Display>(s: &'static str) -> impl Fn(E) -> vh::Failure {
    move |e| vh::Failure::new(s, e.to_string())
}

// ---------------------------------------------------------------- searching

/// All windows of these markers; a marker shorter than 16 bytes is not looked for.
#[derive(Default)]
struct Marks(HashMap<[u8; W], &'static str>);
impl Marks {
    fn add(&mut self, what: &'static str, m: &[u8]) {
        if m.len() >= 16 {
            for w in m.windows(W) {
                self.0.insert(w.try_into().unwrap(), what);
            }
        }
    }
    fn find(&self, b: &[u8]) -> Option<(&'static str, usize)> {
        b.windows(W).enumerate().find_map(|(i, w)| self.0.get(w).map(|k| (*k, i)))
    }
}
/// Also as hexadecimal digits.
fn find_any(m: &Marks, b: &[u8]) -> Option<(&'static str, usize)> {
    m.find(b).or_else(|| {
        // runs of hexadecimal digits, in both alignments
        let mut run = vec![];
        for (i, c) in b.iter().chain([&b' ']).enumerate() {
            match (*c as char).to_digit(16) {
                Some(d) => run.push(d as u8),
                None => {
                    if run.len() >= 2 * W {
                        for s in 0..2 {
                            let x: Vec<u8> = run[s..].chunks_exact(2).map(|p| p[0] << 4 | p[1]).collect();
                            if let Some((k, _)) = m.find(&x) {
                                return Some((k, i - run.len()));
                            }
                        }
                    }
                    run.clear()
                }
            }
        }
        None
    })
}
/// First position of a window that is already in the set (or twice in the text itself).
fn repeated(seen: &mut HashSet<[u8; W]>, b: &[u8]) -> Option<usize> {
    let mut at = None;
    for (i, w) in b.windows(W).enumerate() {
        if !seen.insert(w.try_into().unwrap()) && at.is_none() {
            at = Some(i)
        }
    }
    at
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
/// The forms in which a text could show a byte string: itself, escaped, lists of numbers, hexadecimal, base64.
fn shown(text: &str, secret: &[u8]) -> Option<String> {
    if secret.len() < 16 {
        return None;
    }
    let t: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    let lower = t.to_ascii_lowercase();
    let n = secret.len();
    // the beginning, some places in between, the end
    let mut starts: Vec<usize> = (0..4).chain((4..n - W).step_by((n / 8).max(1))).chain([n - W]).filter(|s| s + W <= n).collect();
    starts.dedup();
    for s in starts {
        let w = &secret[s..s + W];
        let mut forms = vec![];
        if let Ok(x) = std::str::from_utf8(w) {
            if x.bytes().all(|b| b.is_ascii_graphic()) {
                forms.push(x.to_string());
            }
        }
        let six = &w[..6];
        let list = |f: &dyn Fn(&u8) -> String| six.iter().map(f).collect::<Vec<_>>().join(",");
        forms.push(list(&|b| b.to_string()));
        forms.push(list(&|b| format!("0x{b:02x}")));
        forms.push(list(&|b| format!("{b:02x}")));
        forms.push(list(&|b| format!("{b:x}")));
        forms.push(hex(six));
        forms.push(six.iter().map(|b| format!("\\x{b:02x}")).collect());
        forms.push(six.iter().flat_map(|b| std::ascii::escape_default(*b)).map(char::from).collect());
        for f in &forms {
            if lower.contains(&f.to_ascii_lowercase()) {
                return Some(f.clone());
            }
        }
        let mut b = String::new();
        for c in six.chunks(3) {
            let v = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
            for k in 0..4 {
                b.push(B64[(v >> (18 - 6 * k)) as usize & 63] as char)
            }
        }
        if t.contains(&b) || t.contains(&b.replace('-', "+").replace('_', "/")) {
            return Some(b);
        }
        let lossy = String::from_utf8_lossy(w).to_string();
        if !lossy.contains('\u{fffd}') && text.contains(&lossy) {
            return Some(lossy);
        }
    }
    None
}

// ---------------------------------------------------------------- snapshot files

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    /// client, vault, record, value; the paths are made from these numbers
    recs: Vec<(u8, u8, u8, Pay)>,
    store: Vec<(u8, Pay, Pay, bool)>,
    later: Vec<(u8, u8, u8, Pay)>,
    keep: bool,
    key: u16,
    /// the key is kept in the instance and used from there
    stored: bool,
}
fn fstrategy(t: Tier) -> BoxedStrategy<FCase> {
    let n = if t == Tier::Quick { 8 } else { 40 };
    let p = || prop_oneof![5 => (16u32..200, 2u16..6000), 1 => (0u32..6000, 0u16..6000), 1 => (0u32..6000, 0u16..2)].prop_map(|(len, s)| Pay { len, s }).boxed();
    let rec = move || (0u8..3, 0u8..3, 0u8..4, p()).boxed();
    let st = (0u8..3, (0u32..60, 6000u16..9000).prop_map(|(len, s)| Pay { len, s }), p(), any::<bool>());
    (prop::collection::vec(rec(), 1..n), prop::collection::vec(st, 0..n / 2), prop::collection::vec(rec(), 0..4), any::<bool>(), any::<u16>(), any::<bool>())
        .prop_map(|(recs, store, later, keep, key, stored)| FCase { recs, store, later, keep, key, stored })
        .boxed()
}
fn cpath(c: u8) -> Vec<u8> {
    bytes(16 + c as usize * 9, 20_000 + c as u64)
}
fn vpath(v: u8) -> Vec<u8> {
    bytes(20 + v as usize * 7, 21_000 + v as u64)
}
fn rpath(r: u8) -> Vec<u8> {
    bytes(24 + r as usize * 5, 22_000 + r as u64)
}
fn secret(p: &Pay) -> Vec<u8> {
    match p.s {
        0 | 1 => p.bytes(),
        s => bytes(p.len as usize, 30_000 + s as u64),
    }
}
fn sval(p: &Pay) -> Vec<u8> {
    match p.s {
        0 | 1 => p.bytes(),
        s => bytes(p.len as usize, 40_000 + s as u64),
    }
}
fn kprov(k: &[u8]) -> KeyProvider {
    KeyProvider::try_from(k.to_vec()).expect("32 bytes")
}

struct Inst {
    s: Stronghold,
    cl: BTreeMap<u8, Client>,
}
impl Inst {
    fn write(&mut self, recs: &[(u8, u8, u8, Pay)]) -> vh::R<()> {
        for (c, v, r, p) in recs {
            let cl = self.client(*c)?;
            cl.vault(vpath(*v)).write_secret(Location::generic(vpath(*v), rpath(*r)), secret(p)).map_err(e("write"))?;
        }
        Ok(())
    }
    fn client(&mut self, c: u8) -> vh::R<Client> {
        if let Some(c) = self.cl.get(&c) {
            return Ok(c.clone());
        }
        let x = self.s.create_client(cpath(c)).map_err(e("create"))?;
        self.cl.insert(c, x.clone());
        Ok(x)
    }
    fn build(case: &FCase) -> vh::R<Inst> {
        let mut i = Inst { s: Stronghold::default(), cl: BTreeMap::new() };
        i.write(&case.recs)?;
        for (c, k, v, ttl) in &case.store {
            let cl = i.client(*c)?;
            cl.store().insert(sval(k), sval(v), ttl.then(|| std::time::Duration::from_secs(50_000))).map_err(e("store"))?;
        }
        Ok(i)
    }
}
fn run_file(case: &FCase) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    let key = bytes(32, 50_000 + case.key as u64);
    let (f1, f2, f3) = (dir.path().join("one"), dir.path().join("two"), dir.path().join("three"));
    let path = |f: &std::path::PathBuf| SnapshotPath::from_path(f);
    let mut a = Inst::build(case)?;
    let b = Inst::build(case)?;
    let mut m = Marks::default();
    m.add("snapshot key", &key);
    for c in 0..3 {
        m.add("client path", &cpath(c));
        m.add("vault path", &vpath(c));
    }
    for r in 0..4 {
        m.add("record path", &rpath(r));
    }
    let mut secrets = Marks::default();
    for (_, _, _, p) in case.recs.iter().chain(&case.later).filter(|x| x.3.s > 1) {
        secrets.add("secret", &secret(p));
        m.add("secret", &secret(p));
    }
    for (_, k, v, _) in &case.store {
        m.add("store key", &sval(k));
        if v.s > 1 {
            m.add("store value", &sval(v));
        }
    }
    let kl = Location::generic("keys", "snapshot");
    if case.stored {
        a.s.store_snapshot_key_at_location(kprov(&key), kl.clone()).map_err(e("store-key"))?;
    }
    let commit = |i: &Inst, f: &std::path::PathBuf, st: bool| -> vh::R<Vec<u8>> {
        if st {
            i.s.commit(&path(f)).map_err(e("commit"))?;
        } else {
            i.s.commit_with_keyprovider(&path(f), &kprov(&key)).map_err(e("commit"))?;
        }
        std::fs::read(f).map_err(e("read"))
    };
    let mut files = vec![];
    files.push(("first commit", commit(&a, &f1, case.stored)?));
    files.push(("second commit", commit(&a, &f2, false)?));
    files.push(("commit over the same file", commit(&a, &f1, case.stored)?));
    files.push(("commit of an equal instance", commit(&b, &f3, false)?));
    a.write(&case.later)?;
    files.push(("commit after changes", commit(&a, &f1, case.stored)?));
    let fresh = Stronghold::default();
    fresh.load_snapshot(&kprov(&key), &path(&f1)).map_err(e("load"))?;
    if case.keep {
        for c in a.cl.keys() {
            fresh.load_client(cpath(*c)).map_err(e("load-client"))?;
        }
    }
    fresh.commit_with_keyprovider(&path(&f3), &kprov(&key)).map_err(e("commit"))?;
    files.push(("commit after loading", std::fs::read(&f3).map_err(e("read"))?));
    // the vault keys
    let mut keys: HashMap<Vec<u8>, String> = HashMap::new();
    let mut nkeys = 0;
    let fs = [(&f1, "a", true), (&f3, "a", false)];
    let bfile = dir.path().join("b");
    files.push(("another commit of an equal instance", commit(&b, &bfile, false)?));
    for (f, n, fresh) in fs.iter().chain(&[(&bfile, "b", true)]) {
        let k: [u8; 32] = key.clone().try_into().unwrap();
        let s = Snapshot::read_from_snapshot(&path(f), k, None).map_err(e("read"))?;
        for c in a.cl.keys() {
            let id = *a.cl[c].id();
            let st = s.get_state(id).map_err(e("state"))?;
            for (v, k) in st.0.iter() {
                let raw = k.key.borrow().to_vec();
                ensure!(raw.len() == 32 && raw != [0; 32], "weak-key", "the key of vault {v:?} of client {c} is zero or short");
                m.add("vault key", &raw);
                let name = format!("{n} client {c} vault {v:?}");
                if let Some(o) = keys.insert(raw, name.clone()).filter(|_| *fresh) {
                    fail!("same-key", "{name} and {o} have the same key")
                }
                nkeys += 1;
            }
        }
        let plain = snap::read_from(f, &k, &[]).map_err(e("read-plain"))?;
        if let Some((k, i)) = find_any(&secrets, &plain) {
            fail!("plaintext-in-state", "the decrypted state in {f:?} holds a {k} in the clear at {i}")
        }
        let mut x = Marks::default();
        x.add("snapshot key", &key);
        if let Some((k, i)) = find_any(&x, &plain) {
            fail!("key-in-state", "the decrypted state in {f:?} holds the {k} at {i}")
        }
    }
    let mut seen = HashSet::new();
    let mut total = 0;
    for (what, f) in &files {
        if let Some((k, i)) = find_any(&m, f) {
            fail!("in-the-clear", "{what}: a {k} appears at offset {i} of the file")
        }
        total += f.len();
        if let Some(i) = repeated(&mut seen, &f[7.min(f.len())..]) {
            fail!("repeats", "{what}: 8 bytes at offset {} were seen before, in this file or another one", i + 7)
        }
    }
    let mut names: Vec<_> = std::fs::read_dir(dir.path()).map_err(e("dir"))?.map(|d| d.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    for n in &names {
        let b = std::fs::read(dir.path().join(n)).map_err(e("read"))?;
        if let Some((k, i)) = find_any(&m, &b) {
            fail!("in-the-clear", "{n}: a {k} appears at offset {i} of the file")
        }
    }
    Ok(Out::new(!secrets.0.is_empty() && nkeys > 0)
        .tag_if(case.stored, "stored-key")
        .tag_if(total > 20_000, "large")
        .tag_if(case.recs.iter().any(|r| r.3.s < 2 && r.3.len > 100), "uniform-contents"))
}

// ---------------------------------------------------------------- sealed records and messages

#[derive(Serialize, Deserialize)]
struct MRec {
    id: [u8; 24],
    data: Vec<u8>,
    revoke: Option<Vec<u8>>,
    blob: Vec<u8>,
}
#[derive(Serialize, Deserialize)]
struct MVault {
    key: Vec<u8>,
    entries: HashMap<[u8; 24], MRec>,
}
#[derive(Serialize, Deserialize)]
struct MDb {
    vaults: HashMap<[u8; 24], MVault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Write(u8, u8, u8),
    Revoke(u8, u8),
    Copy((u8, u8), (u8, u8)),
    Import((u8, u8), u8),
    Gc(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    vals: Vec<Pay>,
    ops: Vec<SOp>,
}
fn sstrategy(t: Tier) -> BoxedStrategy<SCase> {
    let n = if t == Tier::Quick { 15 } else { 40 };
    let v = || prop_oneof![4 => (16u32..100, 2u16..6000), 1 => (0u32..2000, 0u16..3)].prop_map(|(len, s)| Pay { len, s });
    let at = || (0u8..2, 0u8..4);
    let op = prop_oneof![
        6 => (at(), 0u8..3).prop_map(|((v, r), p)| SOp::Write(v, r, p)),
        1 => at().prop_map(|(v, r)| SOp::Revoke(v, r)),
        2 => (at(), at()).prop_map(|(a, b)| SOp::Copy(a, b)),
        2 => (at(), 0u8..2).prop_map(|(a, v)| SOp::Import(a, v)),
        1 => (0u8..2).prop_map(SOp::Gc),
    ];
    (prop::collection::vec(v(), 1..3), prop::collection::vec(op, 2..n)).prop_map(|(vals, ops)| SCase { vals, ops }).boxed()
}
fn run_sealed(case: &SCase) -> vh::R<Out> {
    let mut db = DbView::<Provider>::new();
    let key = |v: u8| Key::<Provider>::load(bytes(32, 60 + v as u64)).unwrap();
    let vid = |v: u8| VaultId::load(&bytes(24, 70 + v as u64)).unwrap();
    let rid = |r: u8| RecordId::load(&bytes(24, 80 + r as u64)).unwrap();
    for v in 0..2 {
        db.init_vault(&key(v), vid(v));
    }
    let mut m = Marks::default();
    let vals: Vec<Vec<u8>> = case.vals.iter().map(secret).collect();
    for (p, v) in case.vals.iter().zip(&vals) {
        if p.s > 1 {
            m.add("secret", v)
        }
    }
    let mut writes = 0;
    // sealed strings by content, so that an unchanged record counts once
    let mut strings: HashSet<Vec<u8>> = HashSet::new();
    let mut seen = HashSet::new();
    let mut live: HashSet<(u8, u8)> = HashSet::new();
    // a revoked record is written again only after a collection
    let mut dead: HashSet<(u8, u8)> = HashSet::new();
    let mut blobs: HashMap<(u8, u8), Vec<u8>> = HashMap::new();
    let mut old_blobs: HashSet<Vec<u8>> = HashSet::new();
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("op {i} {op:?}");
        let hint = RecordHint::new(*b"a hint of twenty 4 bytes").unwrap();
        let mut wrote = None;
        match op {
            SOp::Write(v, r, _) | SOp::Copy(_, (v, r)) if dead.contains(&(*v, *r)) => continue,
            SOp::Write(v, r, p) => {
                db.write(&key(*v), vid(*v), rid(*r), &vals[*p as usize % vals.len()], hint).map_err(e("write"))?;
                wrote = Some((*v, *r));
            }
            SOp::Revoke(v, r) => {
                if live.remove(&(*v, *r)) {
                    dead.insert((*v, *r));
                    db.revoke_record(&key(*v), vid(*v), rid(*r)).map_err(e("revoke"))?;
                }
            }
            SOp::Copy(a, b) => {
                if live.contains(a) {
                    let mut x = None;
                    db.get_guard::<std::convert::Infallible, _>(&key(a.0), vid(a.0), rid(a.1), |g| {
                        x = Some(g.borrow().to_vec());
                        Ok(())
                    })
                    .map_err(e("get"))?;
                    db.write(&key(b.0), vid(b.0), rid(b.1), &x.unwrap(), hint).map_err(e("write"))?;
                    wrote = Some(*b);
                }
            }
            SOp::Import(a, v) => {
                if live.contains(a) {
                    let rec = db.export_records(vid(a.0), [rid(a.1)]).map_err(e("export"))?;
                    db.import_records(&key(a.0), &key(*v), vid(*v), rec).map_err(e("import"))?;
                    wrote = Some((*v, a.1));
                }
            }
            SOp::Gc(v) => {
                db.garbage_collect_vault(&key(*v), vid(*v));
                dead.retain(|d| d.0 != *v);
            }
        }
        if let Some(w) = wrote {
            writes += 1;
            live.insert(w);
            dead.remove(&w);
        }
        let b = bincode::serialize(&db).map_err(e("serialize"))?;
        if let Some((k, at)) = find_any(&m, &b) {
            fail!("in-the-clear", "{what}: the serialised vaults hold a {k} in the clear at {at}")
        }
        let Ok(s) = bincode::deserialize::<MDb>(&b) else { continue };
        if bincode::serialize(&s).map_or(0, |x| x.len()) != b.len() {
            continue;
        }
        for (vi, v) in &s.vaults {
            for (ri, r) in &v.entries {
                for (n, x) in [("blob", &r.blob), ("transaction", &r.data)] {
                    if strings.insert(x.clone()) {
                        if let Some(at) = repeated(&mut seen, x) {
                            fail!("repeats", "{what}: bytes {at}.. of the sealed {n} of {} in {} were sealed before", hex(&ri[..4]), hex(&vi[..4]))
                        }
                    }
                }
            }
        }
        if let Some(w) = wrote {
            let list = db.list_records_with_blob_id(&key(w.0), vid(w.0)).map_err(e("list"))?;
            if let Some((_, b)) = list.iter().find(|x| x.0 == rid(w.1)) {
                let b = b.as_ref().to_vec();
                let importing = matches!(op, SOp::Import(..));
                ensure!(importing || !old_blobs.contains(&b), "blob-id-reused", "{what}: the blob identifier was used before");
                old_blobs.insert(b.clone());
                blobs.insert(w, b);
            }
        }
    }
    Ok(Out::new(writes > 1 && !strings.is_empty()).tag_if(case.ops.iter().any(|o| matches!(o, SOp::Import(..))), "imports"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    recs: Vec<(u8, Loc, Pay)>,
    key: u16,
    n: u8,
    plain: Pay,
    ad: Pay,
}
fn mstrategy(_: Tier) -> BoxedStrategy<MCase> {
    let p = || prop_oneof![4 => (16u32..300, 2u16..6000), 1 => (0u32..8000, 0u16..3)].prop_map(|(len, s)| Pay { len, s });
    (prop::collection::vec((0u8..2, loc(3, 4), p()), 1..6), any::<u16>(), 2u8..5, p(), (0u32..40, 2u16..300).prop_map(|(len, s)| Pay { len, s }))
        .prop_map(|(recs, key, n, plain, ad)| MCase { recs, key, n, plain, ad })
        .boxed()
}
/// Messages for a peer and bare snapshot files.
fn run_message(case: &MCase) -> vh::R<Out> {
    let mut s = Snapshot::default();
    let ids: Vec<ClientId> = (0..2u64).map(|c| ClientId::load(&bytes(24, 90 + c)).unwrap()).collect();
    let mut m = Marks::default();
    let mut sel: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
    for (c, l, p) in &case.recs {
        let (v, r) = l.get().resolve();
        let id = ids[*c as usize];
        let mut st = s.get_state(id).map_err(e("state"))?;
        let k = st.0.entry(v).or_insert_with(Key::random);
        m.add("vault key", &k.key.borrow());
        st.1.write(k, v, r, &secret(p), RecordHint::new("hint").unwrap()).map_err(e("write"))?;
        if p.s > 1 {
            m.add("secret", &secret(p));
        }
        s.add_data(id, st).map_err(e("add"))?;
        sel.entry(id).or_default().entry(v).or_default().push(r);
    }
    let sk: [u8; 32] = bytes(32, 51_000 + case.key as u64).try_into().unwrap();
    let pk = x25519::PublicKey::from_bytes(refimpl::x25519_pk(&sk));
    m.add("private key", &sk);
    let mut seen = HashSet::new();
    let mut seen_pk = HashSet::new();
    for i in 0..case.n {
        let (eph, msg) = s.export_to_serialized_state(sel.clone(), pk).map_err(e("export"))?;
        let p = eph.to_bytes();
        ensure!(seen_pk.insert(p), "ephemeral-reused", "message {i}: its public key was used before");
        if let Some((k, at)) = find_any(&m, &msg) {
            fail!("in-the-clear", "message {i}: a {k} appears at {at}")
        }
        if let Some(at) = repeated(&mut seen, &msg) {
            fail!("repeats", "message {i}: 8 bytes at {at} were seen before")
        }
    }
    // bare snapshot files of the engine
    let plain = secret(&case.plain);
    let mut m = Marks::default();
    if case.plain.s > 1 {
        m.add("plaintext", &plain);
    }
    m.add("key", &sk);
    for i in 0..case.n {
        let mut out = vec![];
        snap::write(&plain, &mut out, &sk, &case.ad.bytes()).map_err(e("write"))?;
        if let Some((k, at)) = find_any(&m, &out) {
            fail!("in-the-clear", "bare file {i}: the {k} appears at {at}")
        }
        if let Some(at) = repeated(&mut seen, &out) {
            fail!("repeats", "bare file {i}: 8 bytes at {at} were seen before")
        }
    }
    Ok(Out::new(true).tag_if(case.plain.len > 4096, "large"))
}

// ---------------------------------------------------------------- distribution of what should be random

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    what: u8,
    p: Pay,
    k: u8,
}
fn rstrategy(_: Tier) -> BoxedStrategy<RCase> {
    (0u8..9, (0u32..40, 0u16..40).prop_map(|(len, s)| Pay { len, s }), any::<u8>()).prop_map(|(what, p, k)| RCase { what, p, k }).boxed()
}
/// Every byte of a fresh random string takes several values in 40 draws (a fair source fails this with probability 2^-300).
fn run_random(case: &RCase) -> vh::R<Out> {
    const N: usize = 40;
    let key = Key::<Provider>::load(bytes(32, case.k as u64)).unwrap();
    let sh = Stronghold::default();
    let cl = sh.create_client("client").map_err(e("create"))?;
    let loc = |i: usize| Location::generic("vault", vec![i as u8]);
    let mut v: Vec<Vec<u8>> = vec![];
    let what = match case.what % 9 {
        0 => "sealed box",
        1 => "random vault key",
        2 => "random buffer of the provider",
        3 => "Ed25519 key",
        4 => "X25519 key",
        5 => "SLIP10 seed",
        6 => "BIP39 mnemonic",
        7 => "snapshot file",
        _ => "blob identifier",
    };
    for i in 0..N {
        v.push(match case.what % 9 {
            0 => Provider::box_seal(&key, b"ad", &case.p.bytes()).map_err(e("seal"))?,
            1 => Key::<Provider>::random().key.borrow().to_vec(),
            2 => {
                let mut b = vec![0; 1 + case.p.len as usize * 3];
                Provider::random_buf(&mut b).map_err(e("random"))?;
                b
            }
            w @ (3 | 4) => {
                cl.execute_procedure(GenerateKey { ty: if w == 3 { KeyType::Ed25519 } else { KeyType::X25519 }, output: loc(i) }).map_err(e("generate"))?;
                continue;
            }
            5 => {
                cl.execute_procedure(Slip10Generate { size_bytes: Some(1 + case.p.len as usize * 2), output: loc(i) }).map_err(e("generate"))?;
                continue;
            }
            6 => {
                let m = cl
                    .execute_procedure(BIP39Generate { passphrase: None, language: if case.k % 2 == 0 { MnemonicLanguage::English } else { MnemonicLanguage::Japanese }, output: loc(i) })
                    .map_err(e("generate"))?;
                // a word as one byte; the last one also holds the checksum
                m.split_whitespace().map(|w| w.bytes().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(b))).collect()
            }
            7 => {
                let mut out = vec![];
                snap::write(&case.p.bytes(), &mut out, &[case.k; 32], b"").map_err(e("write"))?;
                out.split_off(7)
            }
            _ => {
                let mut db = DbView::<Provider>::new();
                let (vid, rid) = loc(0).resolve();
                db.write(&key, vid, rid, &case.p.bytes(), RecordHint::new("h").unwrap()).map_err(e("write"))?;
                let l = db.list_records_with_blob_id(&key, vid).map_err(e("list"))?;
                l[0].1.as_ref().to_vec()
            }
        });
    }
    if v.is_empty() {
        // generated inside the vault; read back from a snapshot
        let dir = vh::TempDir::new();
        let sp = SnapshotPath::from_path(dir.path().join("s"));
        sh.commit_with_keyprovider(&sp, &kprov(&[5; 32])).map_err(e("commit"))?;
        let st = Snapshot::read_from_snapshot(&sp, [5; 32], None).map_err(e("read"))?.get_state(*cl.id()).map_err(e("state"))?;
        v = chk::view::records(&st, what)?.into_values().collect();
        ensure_eq!(v.len(), N, "count", "{what}: stored secrets");
    }
    let n = v.iter().map(|x| x.len()).min().unwrap();
    ensure!(n > 0, "empty", "{what}: empty");
    for i in 0..n {
        let col: HashSet<u8> = v.iter().map(|x| x[i]).collect();
        ensure!(col.len() > 1, "constant", "{what}: byte {i} of {n} is always {} in {N} draws", v[0][i]);
    }
    let distinct: HashSet<&Vec<u8>> = v.iter().collect();
    ensure!(n < 16 || distinct.len() == N, "repeated-draw", "{what}: the same value was drawn twice");
    Ok(Out::new(true).tag(what))
}
// ---------------------------------------------------------------- debug output

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    s: u16,
    len: u16,
    ascii: bool,
    frag: bool,
}
fn dstrategy(_: Tier) -> BoxedStrategy<DCase> {
    (any::<u16>(), prop_oneof![2 => 16u16..80, 1 => Just(32), 1 => 80u16..600], any::<bool>(), prop::bool::weighted(0.2)).prop_map(|(s, len, ascii, frag)| DCase { s, len, ascii, frag }).boxed()
}
fn texts(v: &dyn Debug) -> Vec<String> {
    vec![format!("{v:?}"), format!("{v:#?}"), format!("{v:x?}"), format!("{v:X?}"), format!("{:?}", Some(v)), format!("{:#x?}", [v])]
}
fn hidden(name: &str, v: &dyn Debug, secrets: &[&[u8]]) -> vh::R<()> {
    for t in texts(v) {
        for s in secrets {
            if let Some(f) = shown(&t, s) {
                fail!(format!("debug:{name}"), "the debug text of {name} shows a secret as {f}: {}", t.chars().take(300).collect::<String>())
            }
        }
    }
    Ok(())
}
fn run_debug(case: &DCase) -> vh::R<Out> {
    let mk = |n: u64| -> Vec<u8> {
        let b = bytes(case.len as usize, (case.s as u64) << 8 | n);
        if case.ascii {
            b.iter().map(|x| b'!' + x % 94).collect()
        } else {
            b
        }
    };
    let text = |n: u64| hex(&mk(n));
    let (sec, key32) = (mk(1), bytes(32, (case.s as u64) << 8 | 2));
    let all: &[&[u8]] = &[&sec, &key32];
    // instance objects
    let st = Stronghold::default();
    let cl = st.create_client("client").map_err(e("create"))?;
    let l = Location::generic("vault", "record");
    cl.vault("vault").write_secret(l.clone(), sec.clone()).map_err(e("write"))?;
    let kp = kprov(&key32);
    st.store_snapshot_key_at_location(kprov(&key32), Location::generic("k", "k")).map_err(e("store-key"))?;
    hidden("Stronghold", &st, all)?;
    hidden("Client", &cl, all)?;
    hidden("KeyProvider", &kp, all)?;
    let k32: [u8; 32] = key32.clone().try_into().unwrap();
    hidden("UseKey", &UseKey::Key(k32), all)?;
    hidden("UseKey", &UseKey::Stored(l.clone()), all)?;
    hidden("KeyProvider", &KeyProvider::with_passphrase_truncated(sec.clone()), all)?;
    // procedures
    let o = || l.clone();
    let pass = text(3);
    let mn = text(4);
    let ps: Vec<(&str, StrongholdProcedure, Box<dyn Debug>, Vec<&[u8]>)> = {
        macro_rules! p {
            ($n:literal, $p:expr, $s:expr) => {{
                let p = $p;
                ($n, StrongholdProcedure::from(p.clone()), Box::new(p) as Box<dyn Debug>, $s)
            }};
        }
        vec![
            p!("WriteVault", WriteVault { data: sec.clone(), location: o() }, vec![&sec]),
            p!("BIP39Generate", BIP39Generate { passphrase: Some(pass.clone()), language: MnemonicLanguage::English, output: o() }, vec![pass.as_bytes()]),
            p!("BIP39Recover", BIP39Recover { passphrase: Some(pass.clone()), mnemonic: mn.clone(), output: o() }, vec![pass.as_bytes(), mn.as_bytes()]),
            p!("BIP39Recover", BIP39Recover { passphrase: None, mnemonic: mn.clone(), output: o() }, vec![mn.as_bytes()]),
            p!("Pbkdf2Hmac", Pbkdf2Hmac { hash_type: Sha2Hash::Sha256, password: sec.clone(), salt: vec![1], count: 1.try_into().unwrap(), output: o() }, vec![&sec]),
            p!("AeadEncrypt", AeadEncrypt { cipher: AeadCipher::Aes256Gcm, associated_data: vec![], plaintext: sec.clone(), nonce: vec![1; 12], key: o() }, vec![&sec]),
            p!("CompareSecret", CompareSecret { location: o(), expected: sec.clone() }, vec![&sec]),
            p!(
                "ConcatKdf",
                ConcatKdf { hash: Sha2Hash::Sha256, algorithm_id: "a".into(), shared_secret: o(), key_len: 3, apu: vec![], apv: vec![], pub_info: vec![], priv_info: sec.clone(), output: o() },
                vec![&sec]
            ),
        ]
    };
    for (n, p, inner, s) in &ps {
        hidden(n, inner, s)?;
        hidden(n, p, s)?;
    }
    // memories
    let mut buf = Buffer::alloc(&sec, sec.len());
    hidden("Buffer", &buf, all)?;
    hidden("Ref", &buf.borrow(), all)?;
    hidden("RefMut", &buf.borrow_mut(), all)?;
    let ram = RamMemory::alloc(&sec, sec.len()).map_err(e("ram"))?;
    hidden("RamMemory", &ram, all)?;
    hidden("RamMemory", &ram.unlock(), all)?;
    let file = FileMemory::alloc(&sec, sec.len()).map_err(e("file"))?;
    hidden("FileMemory", &file, all)?;
    let mut cfgs = vec![NCConfig::FullRam, NCConfig::RamAndFile, NCConfig::FullFile];
    if case.frag {
        cfgs.extend([NCConfig::FragAllocation(FragStrategy::Map), NCConfig::FragAllocation(FragStrategy::Direct), NCConfig::FragAllocation(FragStrategy::Hybrid)]);
    }
    for c in cfgs {
        let nc = NonContiguousMemory::alloc(&key32, 32, c).map_err(e("nc"))?;
        hidden("NonContiguousMemory", &nc, all)?;
        hidden("NonContiguousMemory", &nc.unlock(), all)?;
    }
    hidden("Key", &Key::<Provider>::load(key32.clone()), all)?;
    hidden("NCKey", &NCKey::<Provider>::load(key32.clone()), all)?;
    let mut nk: HashMap<VaultId, Key<Provider>> = HashMap::new();
    nk.insert(l.resolve().0, Key::load(key32.clone()).unwrap());
    hidden("Key map", &nk, all)?;
    // errors of the instance
    let dir = vh::TempDir::new();
    let sp = SnapshotPath::from_path(dir.path().join("s"));
    st.commit_with_keyprovider(&sp, &kp).map_err(e("commit"))?;
    let other = Stronghold::default();
    let bad = kprov(&mk(9)[..16].iter().chain(&mk(9)[..16]).cloned().collect::<Vec<u8>>());
    let mut errs: Vec<Box<dyn Debug>> = vec![];
    let mut disp = String::new();
    let mut push = |x: ClientError| {
        let _ = write!(disp, "{x}; ");
        errs.push(Box::new(x));
    };
    if let Err(x) = other.load_snapshot(&bad, &sp) {
        push(x)
    } else {
        fail!("accepted", "a wrong key is accepted")
    }
    other.load_snapshot(&kp, &sp).map_err(e("load"))?;
    for r in [
        other.load_client("nobody").err(),
        other.get_client("client").err(),
        other.load_client("client").err(),
        other.load_client("client").err(),
        cl.vault("other").revoke_secret("x").err(),
        other.store_snapshot_key_at_location(kprov(&key32), Location::generic("k", "k")).err(),
        other.commit(&SnapshotPath::from_path("/nonexistent/x/y")).err(),
        other.commit_with_keyprovider(&SnapshotPath::from_path("/nonexistent/x/y"), &kp).err(),
    ]
    .into_iter()
    .flatten()
    {
        push(r)
    }
    let mut raw = std::fs::read(dir.path().join("s")).map_err(e("read"))?;
    let n = raw.len();
    raw[n - 1] ^= 1;
    std::fs::write(dir.path().join("s"), &raw).map_err(e("write"))?;
    if let Err(x) = other.load_snapshot(&kp, &sp) {
        push(x)
    }
    let bad_bytes = mk(9);
    let secs: Vec<&[u8]> = vec![&sec, &key32, &bad_bytes];
    for x in &errs {
        hidden("error", x, &secs)?;
    }
    for s in &secs {
        if let Some(f) = shown(&disp, s) {
            fail!("error-text", "an error text shows a secret as {f}: {disp}")
        }
    }
    Ok(Out::new(true).tag_if(case.frag, "fragments").tag_if(errs.len() > 4, "errors"))
}

// ---------------------------------------------------------------- errors of procedures

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    init: Vec<(Loc, Pay)>,
    ops: Vec<Spec>,
}
fn pstrategy(t: Tier) -> BoxedStrategy<PCase> {
    let n = if t == Tier::Quick { 10 } else { 25 };
    let p = || prop_oneof![3 => 16u32..90, 2 => Just(32u32), 2 => Just(64u32), 1 => 0u32..16].prop_flat_map(|len| (2u16..2000).prop_map(move |s| Pay { len, s }));
    (prop::collection::vec((loc(2, 4), p()), 1..6), prop::collection::vec(prop_oneof![5 => procs::spec(2, 5, true), 1 => procs::mn_spec(2, 5)], 1..n))
        .prop_map(|(init, ops)| PCase { init, ops })
        .boxed()
}
/// The secret arguments of a procedure, and the public ones.
fn arguments(p: &StrongholdProcedure) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    use StrongholdProcedure as P;
    match p {
        P::WriteVault(x) => (vec![x.data.clone()], vec![]),
        P::BIP39Generate(x) => (vec![x.passphrase.clone().unwrap_or_default().into_bytes()], vec![]),
        P::BIP39Recover(x) => (vec![x.passphrase.clone().unwrap_or_default().into_bytes(), x.mnemonic.clone().into_bytes()], vec![]),
        P::Pbkdf2Hmac(x) => (vec![x.password.clone()], vec![x.salt.clone()]),
        P::AeadEncrypt(x) => (vec![x.plaintext.clone()], vec![x.nonce.clone(), x.associated_data.clone()]),
        P::AeadDecrypt(x) => (vec![], vec![x.nonce.clone(), x.associated_data.clone(), x.ciphertext.clone(), x.tag.clone()]),
        P::CompareSecret(x) => (vec![x.expected.clone()], vec![]),
        P::ConcatKdf(x) => (vec![x.priv_info.clone()], vec![x.apu.clone(), x.apv.clone(), x.pub_info.clone(), x.algorithm_id.clone().into_bytes()]),
        P::Hkdf(x) => (vec![], vec![x.salt.clone(), x.label.clone()]),
        P::Hmac(x) => (vec![], vec![x.msg.clone()]),
        P::Ed25519Sign(x) => (vec![], vec![x.msg.clone()]),
        P::AesKeyWrapDecrypt(x) => (vec![], vec![x.wrapped_key.clone()]),
        P::X25519DiffieHellman(x) => (vec![], vec![x.public_key.to_vec()]),
        _ => (vec![], vec![]),
    }
}
fn run_procs(case: &PCase) -> vh::R<Out> {
    let cl = Stronghold::default().create_client("client").map_err(e("create"))?;
    let mut m = Model::new();
    for (l, p) in &case.init {
        cl.vault(vault_path(l.v)).write_secret(l.get(), p.bytes()).map_err(e("write"))?;
        m.insert(*l, Slot::Live(Val::Known(p.bytes())));
    }
    let (mut errors, mut searched) = (0, 0);
    for (i, s) in case.ops.iter().enumerate() {
        let p = s.build(&m);
        let (mut secrets, public) = arguments(&p);
        for (_, slot) in &m {
            if let Slot::Live(Val::Known(v)) = slot {
                secrets.push(v.clone())
            }
        }
        // what is also a public argument may be shown; common words are no secrets here
        secrets.retain(|s| {
            s.len() >= 16 && !public.iter().any(|p| p.windows(W).any(|w| s.windows(W).any(|x| x == w))) && s.iter().collect::<HashSet<_>>().len() > 8 && s.iter().any(|b| !b.is_ascii())
        });
        searched += secrets.len();
        let r: Vec<&[u8]> = secrets.iter().map(|s| &s[..]).collect();
        hidden(s.name(), &p, &r)?;
        match cl.execute_procedure_chained(vec![p]) {
            Ok(v) => {
                s.apply(&mut m, v.into_iter().next().map(|x| x.into()).unwrap_or_default(), &format!("op {i}"))?;
            }
            Err(x) => {
                errors += 1;
                hidden("procedure error", &x, &r)?;
                let t = x.to_string();
                for s in &r {
                    if let Some(f) = shown(&t, s) {
                        fail!("error-text", "op {i} {:?}: the error text shows a secret as {f}: {t}", case.ops[i])
                    }
                }
                let x: ClientError = ClientError::Inner(x.to_string());
                hidden("client error", &x, &r)?;
            }
        }
    }
    Ok(Out::new(errors > 0 && searched > 0))
}

fn main() {
    vh::main(vec![Property {
        id: "C13",
        level: "exploration",
        assumptions: &[
            "secrets are looked for in the clear, escaped, as lists of numbers, in hexadecimal and base64, by pieces of 6 or 8 bytes",
            "outputs that a procedure hands to the caller, and entries of the insecure store, are not secrets in debug text",
            "a chance repetition of 8 random bytes is taken to be impossible",
        ],
        facets: vec![
            Facet { name: "file", rule: "instances with recognisable secrets, keys, paths and store entries committed several times; the files are searched for them and compared; non-trivial = it holds recognisable secrets and vault keys", cases: (1000, 20000), batch: 10, racy: false, strategy: fstrategy, run: run_file }.boxed(),
            Facet { name: "sealed", rule: "histories of writes, copies, imports and revocations of few values under fixed keys; all sealed strings are compared; non-trivial = two writes", cases: (6000, 150000), batch: 50, racy: false, strategy: sstrategy, run: run_sealed }.boxed(),
            Facet { name: "message", rule: "the same records exported and the same bytes written several times; non-trivial = always", cases: (3000, 60000), batch: 20, racy: false, strategy: mstrategy, run: run_message }.boxed(),
            Facet { name: "random", rule: "40 draws of something that should be random, byte by byte; non-trivial = always", cases: (900, 9000), batch: 10, racy: false, strategy: rstrategy, run: run_random }.boxed(),
            Facet { name: "debug", rule: "debug and error texts of all public objects that hold secrets; non-trivial = always", cases: (800, 20000), batch: 10, racy: false, strategy: dstrategy, run: run_debug }.boxed(),
            Facet { name: "procedures", rule: "debug texts and errors of procedures along histories; non-trivial = a procedure failed while secrets were looked for", cases: (2000, 100000), batch: 50, racy: false, strategy: pstrategy, run: run_procs }.boxed(),
        ],
        findings: vec![],
    }])
}
