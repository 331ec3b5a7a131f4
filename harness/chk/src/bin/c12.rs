//! C12: merging snapshot states, directly and as encrypted messages.
use chk::engine::{snapshot as snap, vault::*};
use chk::{large::*, refimpl, reg::client_path, sh::*, view::*, *};
use crypto::keys::x25519;
use sh::sync::SyncSnapshotsConfig;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;
use vh::prelude::*;

const NC: u8 = 3;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    keep: bool,
    clients: Option<Vec<u8>>,
    map: Vec<(u8, u8)>,
    per_client: Vec<(u8, Sync)>,
}
impl Cfg {
    fn config(&self) -> SyncSnapshotsConfig {
        let mut c = SyncSnapshotsConfig::new(policy(self.keep));
        // mappings may be given one after the other, and at any time
        let one_by_one = self.map.iter().map(|(a, b)| a + b).fold(0u8, u8::wrapping_add) % 2 == 1;
        if one_by_one {
            for (a, b) in &self.map {
                c.map_clients([(client_path(*a), client_path(*b))].into_iter().collect());
            }
        }
        if let Some(s) = &self.clients {
            c.sync_selected_clients(s.iter().map(|c| client_path(*c)).collect());
        }
        for (k, s) in &self.per_client {
            c.config_client_sync(client_path(*k), s.config());
        }
        if !one_by_one {
            c.map_clients(self.map.iter().map(|(a, b)| (client_path(*a), client_path(*b))).collect());
        }
        c
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(u8, u8, Loc, Pay),
    Revoke(u8, u8, Loc),
    /// an instance's client state copied from the other one as it is (same keys and blob ids)
    Clone(u8, u8),
    Store(u8, u8, u8),
    Merge { from: u8, cfg: Cfg, repeat: bool },
    /// through an encrypted message with these records
    Send { from: u8, select: Vec<(u8, Vec<Loc>)>, cfg: Cfg, repeat: bool },
    /// the instance's snapshot goes through a file
    Reload(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    init: Vec<(u8, u8, Loc, Pay)>,
    ops: Vec<Op>,
}

fn val() -> BoxedStrategy<Pay> {
    prop_oneof![3 => pay(), 2 => (0u16..4).prop_map(|s| Pay { len: 32, s })].boxed()
}
fn l() -> BoxedStrategy<Loc> {
    (0..SV, prop_oneof![6 => 0..SR, 1 => 6u8..8]).prop_map(|(v, r)| Loc { v, r }).boxed()
}
fn cfg() -> BoxedStrategy<Cfg> {
    (
        any::<bool>(),
        prop::option::weighted(0.4, prop::collection::vec(0..NC, 0..3)),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((0..NC, 0..NC), 0..3)],
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((0..NC, sync()), 0..3)],
    )
        .prop_map(|(keep, clients, map, per_client)| Cfg { keep, clients, map, per_client })
        .boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (0u8..2, 0..NC, l(), val()).prop_map(|(i, c, l, p)| Op::Write(i, c, l, p)),
        3 => (0u8..2, 0..NC, l()).prop_map(|(i, c, l)| Op::Revoke(i, c, l)),
        1 => (0u8..2, 0..NC).prop_map(|(i, c)| Op::Clone(i, c)),
        1 => (0u8..2, 0..NC, 0u8..3).prop_map(|(i, c, k)| Op::Store(i, c, k)),
        1 => (0u8..2).prop_map(Op::Reload),
        4 => (0u8..2, cfg(), any::<bool>()).prop_map(|(from, cfg, repeat)| Op::Merge { from, cfg, repeat }),
        4 => (0u8..2, prop::collection::vec((0..NC, prop::collection::vec(l(), 0..5)), 0..4), cfg(), any::<bool>())
            .prop_map(|(from, select, cfg, repeat)| Op::Send { from, select, cfg, repeat }),
    ]
    .boxed()
}
fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 8 } else { 25 };
    let init = prop_oneof![
        2 => prop::collection::vec((0u8..2, 0..NC, l(), val()), 1..20),
        // the same places in both snapshots, with the same or other contents
        1 => prop::collection::vec((0..NC, l(), val(), any::<bool>()), 1..10).prop_map(|v| {
            let one = |i: u8| v.iter().map(move |(c, l, p, same)| (i, *c, *l, Pay { len: p.len, s: if *same { p.s } else { p.s.wrapping_add(i as u16 + 1) } }));
            (0..2).flat_map(one).collect()
        }),
    ];
    (init, prop::collection::vec(op(), 1..n)).prop_map(|(init, ops)| Case { init, ops }).boxed()
}

type Model = BTreeMap<ClientId, (Recs, BTreeMap<Vec<u8>, Vec<u8>>)>;

struct Inst {
    snap: Snapshot,
    m: Model,
    revoked: BTreeSet<(ClientId, VaultId, RecordId)>,
    sk: [u8; 32],
}
fn sk_loc() -> Location {
    Location::generic("keys", "x25519")
}
fn cid(c: u8) -> ClientId {
    use std::sync::OnceLock;
    static IDS: OnceLock<Vec<ClientId>> = OnceLock::new();
    IDS.get_or_init(|| (0..NC).map(|c| *Stronghold::default().create_client(client_path(c)).unwrap().id()).collect())[c as usize]
}
fn e<E: std::fmt::Display>(s: &'static str) -> impl Fn(E) -> vh::Failure {
    move |e| vh::Failure::new(s, e.to_string())
}

impl Inst {
    fn new(seed: u64) -> vh::R<Self> {
        let mut snap = Snapshot::default();
        let sk: [u8; 32] = bytes(32, seed).try_into().unwrap();
        snap.store_secret_key(sk, sk_loc()).map_err(e("store-key"))?;
        Ok(Inst { snap, m: Model::new(), revoked: BTreeSet::new(), sk })
    }
    fn pk(&self) -> x25519::PublicKey {
        x25519::PublicKey::from_bytes(refimpl::x25519_pk(&self.sk))
    }
    fn write(&mut self, c: u8, l: Loc, v: &[u8]) -> vh::R<()> {
        let (vid, rid) = l.get().resolve();
        if self.revoked.contains(&(cid(c), vid, rid)) {
            return Ok(());
        }
        let mut st = self.snap.get_state(cid(c)).map_err(e("get-state"))?;
        let key = st.0.entry(vid).or_insert_with(Key::random);
        st.1.write(key, vid, rid, v, RecordHint::new("hint").unwrap()).map_err(e("write"))?;
        self.snap.add_data(cid(c), st).map_err(e("add-data"))?;
        self.m.entry(cid(c)).or_default().0.insert((vid, rid), v.to_vec());
        Ok(())
    }
    fn revoke(&mut self, c: u8, l: Loc) -> vh::R<()> {
        let l = self.m.get(&cid(c)).map_or(l, |m| l.near(&m.0));
        let (vid, rid) = l.get().resolve();
        let mut st = self.snap.get_state(cid(c)).map_err(e("get-state"))?;
        let Some(m) = self.m.get_mut(&cid(c)) else { return Ok(()) };
        if m.0.remove(&(vid, rid)).is_some() {
            st.1.revoke_record(&st.0[&vid], vid, rid).map_err(e("revoke"))?;
            self.snap.add_data(cid(c), st).map_err(e("add-data"))?;
            self.revoked.insert((cid(c), vid, rid));
        }
        Ok(())
    }
    fn check(&self, what: &str, sig: &str) -> vh::R<()> {
        for c in 0..NC {
            let c = cid(c);
            let st = self.snap.get_state(c).map_err(e("get-state"))?;
            let got = records(&st, what)?;
            let empty = Default::default();
            let (recs, store) = self.m.get(&c).unwrap_or(&empty);
            if let Some(d) = diff(&got, recs) {
                fail!(sig, "{what}: client {c:?}: {d}")
            }
            ensure_eq!(st.2.keys().len(), store.len(), "store", "{what}: store keys of {c:?}");
            for (k, v) in store {
                ensure_eq!(st.2.get(k), Some(v), "store", "{what}: store of {c:?}");
            }
        }
        Ok(())
    }
}

/// What merging gives the target: for each record the candidates (several sources may be mapped to one record).
fn expect_all(src: &BTreeMap<ClientId, Recs>, dst: &Model, cfg: &Cfg) -> BTreeMap<(ClientId, VaultId, RecordId), Vec<Vec<u8>>> {
    let mut out: BTreeMap<_, Vec<_>> = BTreeMap::new();
    let cmap: HashMap<ClientId, ClientId> = cfg.map.iter().map(|(a, b)| (cid(*a), cid(*b))).collect();
    for (c, recs) in src {
        if !cfg.clients.as_ref().map_or(true, |s| s.iter().any(|x| cid(*x) == *c)) {
            continue;
        }
        let t = cmap.get(c).copied().unwrap_or(*c);
        let none = Sync { keep: cfg.keep, vaults: None, recs: vec![], map: vec![], repeat: false };
        let s = cfg.per_client.iter().rev().find(|x| cid(x.0) == *c).map_or(&none, |x| &x.1);
        let empty = Recs::new();
        let have = dst.get(&t).map_or(&empty, |m| &m.0);
        for ((v, r), vals) in expect(recs, have, s.keep, &s.map(), |v, r| s.selected(v, r)) {
            out.entry((t, v, r)).or_default().extend(vals);
        }
    }
    out
}

fn run(case: &Case) -> vh::R<Out> {
    let mut w = [Inst::new(1)?, Inst::new(2)?];
    for (i, c, l, p) in &case.init {
        w[*i as usize].write(*c, *l, &p.bytes())?;
    }
    let dir = vh::TempDir::new();
    let (mut changed, mut kept, mut sent, mut mapped, mut ambiguous) = (0, 0, 0, 0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("op {i} {op:?}");
        match op {
            Op::Write(i, c, l, p) => w[*i as usize].write(*c, *l, &p.bytes())?,
            Op::Revoke(i, c, l) => w[*i as usize].revoke(*c, *l)?,
            Op::Clone(i, c) => {
                let (i, c) = (*i as usize, cid(*c));
                if let Some(m) = w[1 - i].m.get(&c).cloned() {
                    let st = w[1 - i].snap.get_state(c).map_err(e("get-state"))?;
                    w[i].snap.add_data(c, st).map_err(e("add-data"))?;
                    w[i].m.insert(c, m);
                    w[i].revoked.retain(|x| x.0 != c);
                    let r: Vec<_> = w[1 - i].revoked.iter().filter(|x| x.0 == c).cloned().collect();
                    w[i].revoked.extend(r);
                }
            }
            Op::Store(n, c, k) => {
                let w = &mut w[*n as usize];
                let mut st = w.snap.get_state(cid(*c)).map_err(e("get-state"))?;
                let v = bytes(5, i as u64);
                st.2.insert(vec![*k], v.clone(), (*k == 1).then(|| Duration::from_secs(100_000)));
                w.snap.add_data(cid(*c), st).map_err(e("add-data"))?;
                w.m.entry(cid(*c)).or_default().1.insert(vec![*k], v);
            }
            Op::Reload(n) => {
                let w = &mut w[*n as usize];
                let sp = SnapshotPath::from_path(dir.path().join("s"));
                w.snap.write_to_snapshot(&sp, UseKey::Key([7; 32])).map_err(e("write"))?;
                w.snap = Snapshot::read_from_snapshot(&sp, [7; 32], None).map_err(e("read"))?;
                w.snap.store_secret_key(w.sk, sk_loc()).map_err(e("store-key"))?;
            }
            Op::Merge { from, cfg, repeat } | Op::Send { from, cfg, repeat, .. } => {
                let from = *from as usize;
                let to = 1 - from;
                let mut src: BTreeMap<ClientId, Recs> = w[from].m.iter().map(|(c, m)| (*c, m.0.clone())).collect();
                if let Op::Send { select, .. } = op {
                    sent += 1;
                    for (c, recs) in src.iter_mut() {
                        let sel: Vec<_> = select.iter().filter(|s| cid(s.0) == *c).flat_map(|s| s.1.iter().map(|l| l.get().resolve())).collect();
                        recs.retain(|k, _| sel.contains(k));
                    }
                }
                let want = expect_all(&src, &w[to].m, cfg);
                mapped += cfg.map.iter().filter(|(a, b)| a != b && src.get(&cid(*a)).map_or(false, |r| !r.is_empty())).count();
                for k in 0..=(*repeat as usize) {
                    let what = format!("{what} (run {k})");
                    match op {
                        Op::Merge { .. } => {
                            let st = w[from].snap.get_snapshot_state().map_err(e("get-state"))?;
                            let t = &mut w[to].snap;
                            let r = vh::no_panic(std::panic::AssertUnwindSafe(|| t.merge_state(st, cfg.config()))).map_err(|p| vh::Failure::new("panic:merge", format!("{what}: {p}")))?;
                            r.map_err(|e| vh::Failure::new("merge-error", format!("{what}: {e}")))?;
                        }
                        Op::Send { select, .. } => {
                            let mut h: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
                            for (c, ls) in select {
                                for l in ls {
                                    let (v, r) = l.get().resolve();
                                    // an unknown vault is refused, an unknown record is not
                                    let known = w[from].snap.get_state(cid(*c)).map_err(e("get-state"))?.1.contains_vault(&v);
                                    let h = h.entry(cid(*c)).or_default();
                                    if known {
                                        h.entry(v).or_default().push(r);
                                    }
                                }
                            }
                            let (pk, msg) = w[from].snap.export_to_serialized_state(h, w[to].pk()).map_err(|e| vh::Failure::new("export-error", format!("{what}: {e}")))?;
                            let t = &mut w[to].snap;
                            let r = vh::no_panic(std::panic::AssertUnwindSafe(|| t.import_from_serialized_state(msg, sk_loc(), pk, cfg.config())))
                                .map_err(|p| vh::Failure::new("panic:import", format!("{what}: {p}")))?;
                            r.map_err(|e| vh::Failure::new("import-error", format!("{what}: {e}")))?;
                        }
                        _ => unreachable!(),
                    }
                    let mut amb = false;
                    for ((c, v, r), vals) in &want {
                        let mut val = vals[0].clone();
                        if vals.iter().any(|x| *x != val) {
                            amb = true;
                            let got = records(&w[to].snap.get_state(*c).map_err(e("get-state"))?, &what)?;
                            if let Some(g) = got.get(&(*v, *r)).filter(|g| vals.contains(g)) {
                                val = g.clone();
                            }
                        }
                        w[to].revoked.remove(&(*c, *v, *r));
                        let old = w[to].m.entry(*c).or_default().0.insert((*v, *r), val.clone());
                        changed += (old != Some(val)) as usize;
                    }
                    let total: usize = src.values().map(|r| r.len()).sum();
                    kept += (total > want.len()) as usize;
                    w[to].check(&format!("{what}: target"), "target")?;
                    w[from].check(&format!("{what}: source"), "source")?;
                    if amb {
                        ambiguous += 1;
                        break;
                    }
                }
            }
        }
    }
    w[0].check("at the end: 0", "state")?;
    w[1].check("at the end: 1", "state")?;
    Ok(Out::new(changed > 0)
        .tag_if(changed > 0 && sent > 0, "sent")
        .tag_if(kept > 0, "not-all-transferred")
        .tag_if(mapped > 0, "mapped-clients")
        .tag_if(ambiguous > 0, "ambiguous"))
}

// ---------------------------------------------------------------- large states

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    /// client (of up to 60), contents
    src: Vec<(u8, Many)>,
    dst: Vec<(u8, Many)>,
    keep: bool,
    /// as a message, with only some of the records
    send: Option<bool>,
}
fn big(t: Tier) -> BoxedStrategy<Big> {
    let n = if t == Tier::Quick { 500 } else { 2500 };
    let few = move || prop::collection::vec((0u8..3, many(n)), 1..4).boxed();
    let lots = move || prop::collection::vec((0u8..60, many(12)), 1..60).boxed();
    let side = move || prop_oneof![2 => few(), 1 => lots()];
    (side(), side(), any::<bool>(), prop::option::weighted(0.7, any::<bool>())).prop_map(|(src, dst, keep, send)| Big { src, dst, keep, send }).boxed()
}
fn big_run(case: &Big) -> vh::R<Out> {
    let hold = Stronghold::default();
    let ids: Vec<ClientId> = (0..60).map(|c| *hold.create_client(format!("client {c}")).unwrap().id()).collect();
    let mut w = [Inst::new(1)?, Inst::new(2)?];
    for (i, side) in [&case.src, &case.dst].into_iter().enumerate() {
        for (c, m) in side {
            let c = ids[*c as usize];
            let mut st = w[i].snap.get_state(c).map_err(e("get-state"))?;
            let model = w[i].m.entry(c).or_default();
            let mut g = m.rng();
            for _ in 0..m.n {
                let (v, r) = m.pick(&mut g);
                let p = m.payload(&mut g);
                let (vid, rid) = Many::location(v, r).resolve();
                let key = st.0.entry(vid).or_insert_with(Key::random);
                st.1.write(key, vid, rid, &p, RecordHint::new("hint").unwrap()).map_err(e("write"))?;
                model.0.insert((vid, rid), p);
            }
            let v = bytes(5, i as u64);
            st.2.insert(vec![1], v.clone(), None);
            model.1.insert(vec![1], v);
            w[i].snap.add_data(c, st).map_err(e("add-data"))?;
        }
    }
    let what = format!("{case:?}");
    let mut src: BTreeMap<ClientId, Recs> = w[0].m.iter().map(|(c, m)| (*c, m.0.clone())).collect();
    let cfg = Cfg { keep: case.keep, clients: None, map: vec![], per_client: vec![] };
    let mut size = 0;
    if case.send == Some(true) {
        for (n, recs) in src.values_mut().enumerate() {
            let mut k = n;
            recs.retain(|_, _| {
                k += 1;
                k % 3 != 0
            });
        }
    }
    let want = expect_all(&src, &w[1].m, &cfg);
    if case.send.is_some() {
        let mut h: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
        for (c, recs) in &src {
            for (v, r) in recs.keys() {
                h.entry(*c).or_default().entry(*v).or_default().push(*r);
            }
        }
        let (pk, msg) = w[0].snap.export_to_serialized_state(h, w[1].pk()).map_err(|e| vh::Failure::new("export-error", format!("{what}: {e}")))?;
        size = msg.len();
        w[1].snap.import_from_serialized_state(msg, sk_loc(), pk, cfg.config()).map_err(|e| vh::Failure::new("import-error", format!("{what}: {e}")))?;
    } else {
        let st = w[0].snap.get_snapshot_state().map_err(e("get-state"))?;
        w[1].snap.merge_state(st, cfg.config()).map_err(|e| vh::Failure::new("merge-error", format!("{what}: {e}")))?;
    }
    let moved = want.len();
    for ((c, v, r), vals) in want {
        w[1].m.entry(c).or_default().0.insert((v, r), vals[0].clone());
    }
    for (i, sig) in ["source", "target"].into_iter().enumerate() {
        for c in &ids {
            let st = w[i].snap.get_state(*c).map_err(e("get-state"))?;
            let empty = Default::default();
            let (recs, store) = w[i].m.get(c).unwrap_or(&empty);
            if let Some(d) = diff(&records(&st, &what)?, recs) {
                fail!(sig, "{what}: {sig}: client {c:?}: {d}")
            }
            ensure_eq!(st.2.get(&[1u8][..].to_vec()), store.get(&[1u8][..].to_vec()), "store", "{what}: {sig}: store of {c:?}");
        }
    }
    Ok(Out::new(moved > 16).tag_if(moved > 256, "more than 256 records").tag_if(size > 65_536, "message above 64 KiB").tag_if(src.len() > 16, "many clients"))
}

// ---------------------------------------------------------------- messages

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    None,
    Flip(u16, u8),
    Truncate(u16),
    Extend(Vec<u8>),
    /// the first bytes of this message, the rest of another one to the same peer
    Splice(u16),
    Random(u16),
    /// another peer's message
    WrongSender,
    /// the message was meant for someone else
    WrongReceiver,
    /// no key at the location
    NoKey(bool),
    /// the key at the location is not a key
    BadKey(u8),
    /// the private key differs in one bit that counts
    KeyBit(u8),
    /// the claimed public key differs in one bit that counts
    PkBit(u8),
    /// a message made with the right key around other contents
    Content(u8, u16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    recs: Vec<(u8, Loc, Pay)>,
    dst: Vec<(u8, Loc, Pay)>,
    muts: Vec<Mutation>,
    cfg: Cfg,
}
fn mutation() -> BoxedStrategy<Mutation> {
    use Mutation::*;
    prop_oneof![
        1 => Just(None),
        4 => (any::<u16>(), 0u8..8).prop_map(|(p, b)| Flip(p, b)),
        2 => (0u16..120, 0u8..8).prop_map(|(p, b)| Flip(p, b)),
        2 => any::<u16>().prop_map(Truncate),
        1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Extend),
        2 => any::<u16>().prop_map(Splice),
        1 => (0u16..300).prop_map(Random),
        1 => Just(WrongSender),
        1 => Just(WrongReceiver),
        1 => any::<bool>().prop_map(NoKey),
        1 => (0u8..70).prop_map(BadKey),
        2 => (3u8..254).prop_map(KeyBit),
        2 => (0u8..255).prop_map(PkBit),
        4 => (0u8..6, any::<u16>(), 0u8..8).prop_map(|(k, p, b)| Content(k, p, b)),
    ]
    .boxed()
}
fn msg_strategy(_: Tier) -> BoxedStrategy<Msg> {
    (
        prop::collection::vec((0..NC, l(), val()), 1..6),
        prop::collection::vec((0..NC, l(), val()), 0..4),
        prop::collection::vec(mutation(), 1..16),
        cfg(),
    )
        .prop_map(|(recs, dst, muts, cfg)| Msg { recs, dst, muts, cfg })
        .boxed()
}

fn run_msg(case: &Msg) -> vh::R<Out> {
    let (mut a, mut b, other) = (Inst::new(1)?, Inst::new(2)?, Inst::new(3)?);
    for (c, l, p) in &case.recs {
        a.write(*c, *l, &p.bytes())?;
    }
    for (c, l, p) in &case.dst {
        b.write(*c, *l, &p.bytes())?;
    }
    let mut h: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
    for (c, l, _) in &case.recs {
        let (v, r) = l.get().resolve();
        h.entry(cid(*c)).or_default().entry(v).or_default().push(r);
    }
    let (pk, msg) = a.snap.export_to_serialized_state(h.clone(), b.pk()).map_err(e("export"))?;
    let (pk2, msg2) = a.snap.export_to_serialized_state(h.clone(), b.pk()).map_err(e("export"))?;
    let (pk3, msg3) = a.snap.export_to_serialized_state(h, other.pk()).map_err(e("export"))?;
    ensure!(pk.to_bytes() != pk2.to_bytes() && pk2.to_bytes() != pk3.to_bytes(), "ephemeral", "two messages use the same ephemeral key");
    for (_, _, p) in &case.recs {
        let p = p.bytes();
        ensure!(p.len() < 16 || !msg.windows(p.len()).any(|w| w == p), "cleartext", "a secret of {} bytes is in the message", p.len());
    }
    a.check("after the export", "source")?;
    let mut refused = 0;
    for (i, m) in case.muts.iter().enumerate() {
        let what = format!("message {i} {m:?}");
        let (mut bytes_, mut key, mut loc) = (msg.clone(), pk, sk_loc());
        let mut refuse = true;
        match m {
            Mutation::None => refuse = false,
            Mutation::Flip(p, bit) => {
                let p = *p as usize % bytes_.len();
                bytes_[p] ^= 1 << bit;
            }
            Mutation::Truncate(p) => bytes_.truncate(*p as usize % bytes_.len()),
            Mutation::Extend(x) => bytes_.extend(x),
            Mutation::Splice(p) => {
                let p = *p as usize % bytes_.len();
                bytes_.truncate(p);
                bytes_.extend(&msg2[p.min(msg2.len())..]);
                refuse = p > 0 || msg2 == msg;
                if p == 0 {
                    // all of the other message, which was made for another shared key
                    refuse = true;
                }
                if bytes_ == msg {
                    refuse = false;
                }
            }
            Mutation::Random(n) => bytes_ = bytes(*n as usize, *n as u64),
            Mutation::WrongSender => key = pk2,
            Mutation::WrongReceiver => {
                bytes_ = msg3.clone();
                key = pk3;
            }
            Mutation::NoKey(v) => loc = if *v { Location::generic("nowhere", "x25519") } else { Location::generic("keys", "nothing") },
            Mutation::BadKey(n) => {
                if *n == 32 {
                    continue;
                }
                loc = Location::generic("bad", vec![*n]);
                b.snap.store_secret_key(bytes(*n as usize, 9), loc.clone()).map_err(e("store-key"))?;
            }
            Mutation::KeyBit(n) => {
                let mut sk = b.sk;
                sk[*n as usize / 8] ^= 1 << (n % 8);
                loc = Location::generic("near", vec![*n]);
                b.snap.store_secret_key(sk, loc.clone()).map_err(e("store-key"))?;
            }
            Mutation::PkBit(n) => {
                let mut k = pk.to_bytes();
                k[*n as usize / 8] ^= 1 << (n % 8);
                key = x25519::PublicKey::from_bytes(k);
            }
            Mutation::Content(kind, p, bit) => {
                // open the message with the private key, change the contents, seal it again
                let shared = refimpl::x25519(&b.sk, &pk.to_bytes());
                let c = snap::read(&mut &msg[..], &shared, &[]).map_err(|e| vh::Failure::new("open", format!("the message does not open with the shared key: {e}")))?;
                let plain = snap::decompress(&c).map_err(|e| vh::Failure::new("open", format!("{e:?}")))?;
                let p = *p as usize;
                let seal = |c: &[u8]| {
                    let mut out = vec![];
                    snap::write(c, &mut out, &shared, &[]).unwrap();
                    out
                };
                bytes_ = match kind {
                    0 => seal(&bytes(p % 200, p as u64)),
                    1 => seal(&snap::compress(&bytes(p % 200, p as u64))),
                    2 => seal(&c[..p % c.len()]),
                    3 => seal(&snap::compress(&plain[..p % plain.len()])),
                    4 => {
                        let mut x = plain;
                        let n = x.len();
                        x[p % n] ^= 1 << bit;
                        seal(&snap::compress(&x))
                    }
                    _ => {
                        let mut x = plain;
                        let n = x.len();
                        let at = p % n.saturating_sub(8).max(1);
                        for k in 0..8.min(n) {
                            x[at + k] = 0xff;
                        }
                        seal(&snap::compress(&x))
                    }
                };
                let t = &mut b.snap;
                let r = vh::no_panic(std::panic::AssertUnwindSafe(|| t.import_from_serialized_state(bytes_, sk_loc(), pk, case.cfg.config())))
                    .map_err(|p| vh::Failure::new("panic:import", format!("{what}: {p}")))?;
                match kind {
                    0..=3 => {
                        ensure!(r.is_err(), "accepted", "{what}: damaged contents were accepted");
                        b.check(&what, "target")?;
                        refused += 1;
                    }
                    // such contents may be another valid message: start over
                    _ => {
                        b = Inst::new(2)?;
                        for (c, l, p) in &case.dst {
                            b.write(*c, *l, &p.bytes())?;
                        }
                    }
                }
                continue;
            }
        }
        let t = &mut b.snap;
        let r = vh::no_panic(std::panic::AssertUnwindSafe(|| t.import_from_serialized_state(bytes_, loc, key, case.cfg.config())))
            .map_err(|p| vh::Failure::new("panic:import", format!("{what}: {p}")))?;
        if refuse {
            ensure!(r.is_err(), "accepted", "{what}: the message was accepted");
            refused += 1;
            b.check(&what, "target")?;
        } else {
            r.map_err(|e| vh::Failure::new("import-error", format!("{what}: {e}")))?;
            b = Inst::new(2)?;
            for (c, l, p) in &case.dst {
                b.write(*c, *l, &p.bytes())?;
            }
        }
    }
    a.check("at the end", "source")?;
    Ok(Out::new(refused > 0).tag_if(case.muts.iter().any(|m| matches!(m, Mutation::Content(..))), "resealed"))
}

fn main() {
    vh::main(vec![Property {
        id: "C12",
        level: "exploration",
        assumptions: &[
            "one thread",
            "where the configuration maps two sources with different values to one record, either value may win",
            "private keys that differ only in bits that X25519 ignores are the same key",
        ],
        facets: vec![
            Facet { name: "large", rule: "one merge or message between snapshots with up to 60 clients or hundreds of vaults and records, secrets of up to 256 KiB; non-trivial = more than 16 records transferred", cases: (60, 1500), batch: 4, racy: false, strategy: big, run: big_run }.boxed(),
            Facet { name: "exchange", rule: "histories of writes, revocations, reloads, direct merges and encrypted messages between two snapshots with 3 clients; non-trivial = a merge changed the target", cases: (4000, 60000), batch: 20, racy: false, strategy, run }.boxed(),
            Facet { name: "messages", rule: "encrypted messages that were modified, resealed with other contents or opened with other keys; non-trivial = at least one was refused", cases: (4000, 60000), batch: 20, racy: false, strategy: msg_strategy, run: run_msg }.boxed(),
        ],
        findings: vec![],
    }])
}
