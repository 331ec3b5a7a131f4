//! Complete views of client states, read at the level of the vault records.
use crate::{engine::vault::*, sh::*, vault_path, Loc};
use crate::sh::sync::{MergePolicy, SyncClientsConfig};
use std::collections::{BTreeMap, HashMap};
use vh::prelude::*;

/// Values of all live records, by vault and record id.
pub type Recs = BTreeMap<(VaultId, RecordId), Vec<u8>>;

pub fn raw_key(p: &KeyProvider) -> [u8; 32] {
    p.try_unlock().unwrap().borrow().as_ref().try_into().unwrap()
}

/// All live records of a client state with their values; fails if one is listed but cannot be opened.
pub fn records(st: &ClientState, what: &str) -> vh::R<Recs> {
    let mut out = Recs::new();
    for vid in st.1.list_vaults() {
        let Some(key) = st.0.get(&vid) else { fail!("vault-without-key", "{what}: no key is kept for vault {vid:?}") };
        let list = st.1.list_records_with_blob_id(key, vid).map_err(|e| vh::Failure::new("vault-unreadable", format!("{what}: vault {vid:?}: {e}")))?;
        for (rid, _) in list {
            let mut v = None;
            st.1.get_guard::<std::convert::Infallible, _>(key, vid, rid, |b| {
                v = Some(b.borrow().to_vec());
                Ok(())
            })
            .map_err(|e| vh::Failure::new("record-unreadable", format!("{what}: record {rid:?} of {vid:?}: {e}")))?;
            out.insert((vid, rid), v.unwrap());
        }
    }
    Ok(out)
}

pub fn diff(got: &Recs, want: &Recs) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("record {k:?} is missing")),
            Some(g) if g != v => return Some(format!("record {k:?} holds another value ({} bytes, expected {})", g.len(), v.len())),
            _ => {}
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|k| format!("record {k:?} should not be there"))
}

pub const SV: u8 = 4;
pub const SR: u8 = 4;

/// A client-to-client synchronisation over the vaults 0..SV and records 0..SR.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sync {
    pub keep: bool,
    /// selected vaults; None: all
    pub vaults: Option<Vec<u8>>,
    /// selected records per vault
    pub recs: Vec<(u8, Vec<u8>)>,
    pub map: Vec<(u8, u8)>,
    pub repeat: bool,
}

impl Sync {
    pub fn config(&self) -> SyncClientsConfig {
        let mut cfg = SyncClientsConfig::new(policy(self.keep));
        // mappings may be given one after the other, and at any time
        let one_by_one = self.map.iter().map(|(a, b)| a + b).fold(0u8, u8::wrapping_add) % 2 == 1;
        if one_by_one {
            for (a, b) in &self.map {
                cfg.map_vaults([(vault_path(*a), vault_path(*b))].into_iter().collect());
            }
        }
        if let Some(v) = &self.vaults {
            cfg.sync_selected_vaults(v.iter().map(|v| vault_path(*v)).collect());
        }
        for (v, rs) in &self.recs {
            cfg.sync_selected_record(vault_path(*v), rs.iter().map(|r| Loc { v: *v, r: *r }.record_path().unwrap()).collect());
        }
        if !one_by_one {
            cfg.map_vaults(self.map.iter().map(|(a, b)| (vault_path(*a), vault_path(*b))).collect());
        }
        cfg
    }
    /// of several entries for one vault the last one counts
    pub fn map(&self) -> HashMap<VaultId, VaultId> {
        self.map.iter().map(|(a, b)| (vid(*a), vid(*b))).collect()
    }
    pub fn selected(&self, v: &VaultId, r: &RecordId) -> bool {
        self.vaults.as_ref().map_or(true, |x| x.iter().any(|x| vid(*x) == *v))
            && self.recs.iter().rev().find(|x| vid(x.0) == *v).map_or(true, |x| x.1.iter().any(|k| Loc { v: x.0, r: *k }.get().resolve().1 == *r))
    }
}
pub fn policy(keep: bool) -> MergePolicy {
    if keep {
        MergePolicy::KeepOld
    } else {
        MergePolicy::Replace
    }
}

pub fn sync() -> BoxedStrategy<Sync> {
    (
        any::<bool>(),
        prop::option::weighted(0.5, prop::collection::vec(0..SV, 0..4)),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((0..SV, prop::collection::vec(0..SR, 0..4)), 0..3)],
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec((0..SV, 0..SV), 0..4)],
        any::<bool>(),
    )
        .prop_map(|(keep, vaults, recs, map, repeat)| Sync { keep, vaults, recs, map, repeat })
        .boxed()
}

impl Loc {
    /// A location with a secret, if there is one that can be addressed (counters stay as they are).
    pub fn near(self, recs: &Recs) -> Loc {
        let used: Vec<Loc> = (0..SV).flat_map(|v| (0..SR).map(move |r| Loc { v, r })).filter(|l| recs.contains_key(&l.get().resolve())).collect();
        match self {
            l if l.r >= 6 || used.contains(&l) || used.is_empty() => l,
            l => used[(l.v * SR + l.r) as usize % used.len()],
        }
    }
}

/// What the synchronisation gives the target: candidates per record (several vaults may be mapped to one).
pub fn expect(src: &Recs, dst: &Recs, keep: bool, map: &HashMap<VaultId, VaultId>, selected: impl Fn(&VaultId, &RecordId) -> bool) -> BTreeMap<(VaultId, RecordId), Vec<Vec<u8>>> {
    let mut m: BTreeMap<_, Vec<Vec<u8>>> = BTreeMap::new();
    for ((v, r), val) in src {
        if selected(v, r) {
            let t = (map.get(v).copied().unwrap_or(*v), *r);
            if keep && dst.contains_key(&t) {
                continue;
            }
            m.entry(t).or_default().push(val.clone());
        }
    }
    m
}

pub fn vid(v: u8) -> VaultId {
    Loc { v, r: 0 }.get().resolve().0
}

