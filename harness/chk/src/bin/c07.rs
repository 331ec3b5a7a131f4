//! C07: paths map to identifiers deterministically and without collisions.
use chk::{refimpl::H, sh::*, *};
use vh::prelude::*;

/// A path and a change that gives a related one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    v: Vec<u8>,
    r: Vec<u8>,
    c: u64,
    m: Vec<Change>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Append(bool, u8),
    Prepend(bool, u8),
    Drop(bool),
    Flip(bool, u16, u8),
    Swap,
    /// move a byte from the record to the vault path or back
    Shift(bool),
    Dup(bool),
    Hash(bool),
    Counter(u64),
    Fresh(bool, Vec<u8>),
    CounterText,
}

fn path() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => prop::collection::vec(any::<u8>(), 0..8),
        2 => "[a-z]{0,12}".prop_map(|s| s.into_bytes()),
        2 => prop::collection::vec(any::<u8>(), 8..40),
        2 => (prop::sample::select(vec![63usize, 64, 65, 127, 128, 129, 130, 255, 256, 1000]), any::<u64>()).prop_map(|(n, s)| bytes(n, s)),
        1 => (prop::sample::select(vec![1024usize, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 70_000]), any::<u64>()).prop_map(|(n, s)| bytes(n, s)),
        1 => prop::collection::vec(prop::sample::select(vec![0u8, 1, 0xff]), 0..140),
        1 => (0u64..200).prop_map(|n| format!("{:?}{n}", [97u8, 98]).into_bytes()),
    ]
    .boxed()
}
fn counter() -> BoxedStrategy<u64> {
    prop_oneof![4 => 0u64..20, 1 => any::<u64>(), 1 => prop::sample::select(vec![0, 1, 10, 11, 110, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX])].boxed()
}
fn strategy(_: Tier) -> BoxedStrategy<Case> {
    let b = any::<bool>;
    let ch = prop_oneof![
        2 => (b(), any::<u8>()).prop_map(|(a, x)| Change::Append(a, x)),
        1 => (b(), any::<u8>()).prop_map(|(a, x)| Change::Prepend(a, x)),
        2 => b().prop_map(Change::Drop),
        2 => (b(), any::<u16>(), 0u8..8).prop_map(|(a, n, x)| Change::Flip(a, n, x)),
        1 => Just(Change::Swap),
        2 => b().prop_map(Change::Shift),
        1 => b().prop_map(Change::Dup),
        1 => b().prop_map(Change::Hash),
        2 => counter().prop_map(Change::Counter),
        1 => (b(), path()).prop_map(|(a, p)| Change::Fresh(a, p)),
        1 => Just(Change::CounterText),
    ];
    (path(), path(), counter(), prop::collection::vec(ch, 1..3)).prop_map(|(v, r, c, m)| Case { v, r, c, m }).boxed()
}

/// HMAC pads short keys with zeros and hashes long ones: paths with the same normal form are recorded as a finding.
fn norm(p: &[u8]) -> Vec<u8> {
    let mut k = if p.len() > 128 { H::S512.hash(&[p]) } else { p.to_vec() };
    while k.last() == Some(&0) {
        k.pop();
    }
    k
}
fn rid24(data: &[u8], key: &[u8]) -> Vec<u8> {
    H::S512.hmac(key, data)[..24].to_vec()
}

fn run(c: &Case) -> vh::R<Out> {
    let (v, r, n) = (c.v.clone(), c.r.clone(), c.c);
    let (mut v2, mut r2, mut n2) = (v.clone(), r.clone(), n);
    for m in &c.m {
        let pick = |a: &bool| *a;
        match m {
            Change::Append(a, x) => if pick(a) { v2.push(*x) } else { r2.push(*x) },
            Change::Prepend(a, x) => if pick(a) { v2.insert(0, *x) } else { r2.insert(0, *x) },
            Change::Drop(a) => { if *a { v2.pop() } else { r2.pop() }; }
            Change::Flip(a, k, x) => {
                let p = if *a { &mut v2 } else { &mut r2 };
                if !p.is_empty() {
                    let k = *k as usize % p.len();
                    p[k] ^= 1 << x;
                }
            }
            Change::Swap => std::mem::swap(&mut v2, &mut r2),
            Change::Shift(a) => {
                if *a {
                    if let Some(b) = v2.pop() { r2.insert(0, b) }
                } else if !r2.is_empty() {
                    let b = r2.remove(0);
                    v2.push(b)
                }
            }
            Change::Dup(a) => { let p = if *a { &mut v2 } else { &mut r2 }; let q = p.clone(); p.extend(q); }
            Change::Hash(a) => { let p = if *a { &mut v2 } else { &mut r2 }; *p = H::S512.hash(&[p]); }
            Change::Counter(x) => n2 = *x,
            Change::Fresh(a, p) => if *a { v2 = p.clone() } else { r2 = p.clone() },
            Change::CounterText => r2 = if n == 0 { format!("{v2:?}first_record").into_bytes() } else { format!("{v2:?}{n}").into_bytes() },
        }
    }
    // reference and determinism
    let mut gen = vec![];
    let mut cnt = vec![];
    let hold = Stronghold::default();
    let mut ids = vec![];
    for (v, r, n) in [(&v, &r, n), (&v2, &r2, n2)] {
        let vid = rid24(v, v);
        let g = Location::generic(v.clone(), r.clone());
        let k = Location::counter(v.clone(), n as usize);
        let (gv, gr) = g.resolve();
        let (kv, kr) = k.resolve();
        let t = if n == 0 { format!("{v:?}first_record") } else { format!("{v:?}{n}") };
        ensure_eq!(hex(gv.as_ref()), hex(&vid), "vault-id", "vault id of {}", hex(v));
        ensure_eq!(kv, gv, "vault-id", "vault id of the counter location of {}", hex(v));
        let grr: engine::vault::ChainId = gr.into();
        let krr: engine::vault::ChainId = kr.into();
        ensure_eq!(hex(grr.as_ref()), hex(&rid24(&vid, r)), "record-id", "record id of {} / {}", hex(v), hex(r));
        ensure_eq!(hex(krr.as_ref()), hex(&rid24(t.as_bytes(), t.as_bytes())), "counter-id", "record id of {} / counter {n}", hex(v));
        // the other ways to the same identifiers
        ensure_eq!(Location::const_generic(v.clone(), r.clone()).resolve(), (gv, gr), "const", "const_generic of {} / {}", hex(v), hex(r));
        ensure_eq!(Location::const_counter(v.clone(), n as usize).resolve(), (kv, kr), "const", "const_counter of {} # {n}", hex(v));
        ensure_eq!(derive_vault_id(v), gv, "derive", "derive_vault_id of {}", hex(v));
        ensure_eq!(derive_record_id(v, r), gr, "derive", "derive_record_id of {} / {}", hex(v), hex(r));
        ensure_eq!(derive_record_id_from_counter(v, n as usize), kr, "derive", "derive_record_id_from_counter of {} # {n}", hex(v));
        ensure_eq!(k.vault_path(), &v[..], "path", "vault_path of a counter location");
        ensure_eq!(g.vault_path(), &v[..], "path", "vault_path");
        ensure_eq!(g.record_path(), &r[..], "path", "record_path");
        let cl = hold.create_client(v).map_err(|e| vh::Failure::new("client", e.to_string()))?;
        ensure_eq!(hex(cl.id().as_ref()), hex(&vid), "client-id", "client id of {}", hex(v));
        ensure_eq!(cl.vault(v).id(), gv, "vault-id", "id of the vault {} of a client", hex(v));
        for _ in 0..2 {
            ensure_eq!(Location::generic(v.clone(), r.clone()).resolve(), (gv, gr), "unstable", "second resolution");
            ensure_eq!(Location::counter(v.clone(), n as usize).resolve(), (kv, kr), "unstable", "second resolution");
        }
        ensure!(gr != kr, "generic-equals-counter", "{} / {} resolves to the id of counter {n}", hex(v), hex(r));
        gen.push((gv, gr));
        cnt.push((kv, kr));
        ids.push(*cl.id());
    }
    let same_v = v == v2;
    let same_r = r == r2;
    let aliased = !same_r && norm(&r) == norm(&r2);
    ensure_eq!(gen[0].0 == gen[1].0, same_v, "vault-collision", "vault ids of {} and {}", hex(&v), hex(&v2));
    ensure_eq!(ids[0] == ids[1], same_v, "client-collision", "client ids of {} and {}", hex(&v), hex(&v2));
    if !aliased {
        ensure_eq!(gen[0].1 == gen[1].1, same_v && same_r, "record-collision", "record ids of {}/{} and {}/{}", hex(&v), hex(&r), hex(&v2), hex(&r2));
    }
    ensure_eq!(cnt[0].1 == cnt[1].1, same_v && n == n2, "counter-collision", "counter ids of {}#{n} and {}#{n2}", hex(&v), hex(&v2));
    ensure!(gen[0].1 != cnt[1].1 && gen[1].1 != cnt[0].1, "generic-equals-counter", "{}/{} and {}#{n2}", hex(&v), hex(&r), hex(&v2));

    // behaviour: the four locations and the two clients hold their own values
    if !aliased {
        let hold = Stronghold::default();
        let locs = [
            Location::generic(v.clone(), r.clone()),
            Location::generic(v2.clone(), r2.clone()),
            Location::counter(v.clone(), n as usize),
            Location::counter(v2.clone(), n2 as usize),
        ];
        let mut last: Vec<(Location, (engine::vault::VaultId, engine::vault::RecordId), u8)> = vec![];
        let a = hold.create_client(&v).unwrap();
        for (i, l) in locs.iter().enumerate() {
            a.vault(l.vault_path()).write_secret(l.clone(), vec![i as u8; 5]).map_err(|e| vh::Failure::new("write", e.to_string()))?;
            let id = match i {
                0 => (same_v && same_r).then_some(1),
                2 => (same_v && n == n2).then_some(3),
                _ => None,
            };
            last.push((l.clone(), l.resolve(), id.unwrap_or(i as u8)));
        }
        for (l, _, x) in &last {
            check_secret(&a, l, Some(&[*x; 5]), "written at related locations")?;
        }
        if !same_v {
            let b = hold.create_client(&v2).unwrap();
            for l in &locs {
                check_secret(&b, l, None, "in another client")?;
            }
            check_secret(&hold.get_client(&v).map_err(|e| vh::Failure::new("get", e.to_string()))?, &locs[0], Some(&[last[0].2; 5]), "through a new handle")?;
        }
    }
    Ok(Out::new(!same_v || !same_r || n != n2).tag_if(same_v, "same-vault").tag_if(same_r, "same-record").tag_if(aliased, "aliased-excluded"))
}

fn alias() -> vh::R<()> {
    let a = Location::generic("v", "a").resolve();
    let b = Location::generic("v", "a\0").resolve();
    let long = bytes(200, 3);
    let c = Location::generic("v", long.clone()).resolve();
    let d = Location::generic("v", H::S512.hash(&[&long])).resolve();
    ensure!(a != b && c != d, "record-path-alias", "record paths \"a\" and \"a\\0\", or a path of more than 128 bytes and its SHA-512 digest, resolve to the same record id");
    Ok(())
}

fn main() {
    vh::main(vec![Property {
        id: "C07",
        level: "exploration",
        assumptions: &["the derivation used by snapshots written so far (HMAC-SHA512 cut to 24 bytes) is the reference that later releases must agree with"],
        facets: vec![Facet {
            name: "pairs",
            rule: "pairs of related client/vault/record paths and counters, compared with an independent derivation, with each other, and by the secrets they hold; non-trivial = the two differ",
            cases: (20000, 1000000),
            batch: 200,
            racy: false,
            strategy,
            run,
        }
        .boxed()],
        findings: vec![Finding { sig: "record-path-alias", run: alias }],
    }])
}
