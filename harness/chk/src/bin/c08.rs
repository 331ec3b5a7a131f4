//! C08: key generation, derivation and signing procedures against independent implementations.
use chk::{procs::*, *};
use vh::prelude::*;

fn op(odd: bool) -> BoxedStrategy<Spec> {
    let (nv, nr) = (2, 3);
    let l = move || loc(nv, nr);
    let ch = if odd {
        chain()
    } else {
        prop::collection::vec(prop_oneof![3 => (0u32..100).prop_map(|i| i | 1 << 31), 1 => any::<u32>().prop_map(|i| i | 1 << 31)], 0..8).boxed()
    };
    prop_oneof![
        4 => (key_pay(), l()).prop_map(|(p, o)| Spec::Write { p, o }),
        1 => (l(), any::<bool>()).prop_map(|(l, gc)| Spec::Revoke { l, gc }),
        2 => (seed_len(prop_oneof![Just(0u64), Just(16), Just(32), Just(64), 0u64..300]), l()).prop_map(|(n, o)| Spec::SeedGen { n, o }),
        6 => (any::<bool>(), l(), ch, l()).prop_map(|(key, i, chain, o)| Spec::Slip { key, i, chain, o }),
        2 => (any::<bool>(), l()).prop_map(|(x, o)| Spec::Gen { x, o }),
        4 => (any::<bool>(), l()).prop_map(|(x, i)| Spec::Pub { x, i }),
        4 => (prop_oneof![3 => small(), 1 => pay()], l()).prop_map(|(m, i)| Spec::Sign { m, i }),
        4 => (0u16..2000, l(), l()).prop_map(|(s, i, o)| Spec::Dh { s, i, o }),
    ]
    .boxed()
}
fn strategy(t: Tier) -> BoxedStrategy<Hist> {
    let n = if t == Tier::Quick { 16 } else { 40 };
    prop_oneof![hist(op(true), n), hist(op(false), n)].boxed()
}
fn mn(_: Tier) -> BoxedStrategy<Hist> {
    // recovery, and then derivation from the recovered seed
    (hist(mn_spec(2, 3), 3), op(false)).prop_map(|(mut h, o)| {
        h.ops.push(o);
        h
    })
    .boxed()
}

/// One procedure with one input far longer than usual, and a second one on its result.
fn large(_: Tier) -> BoxedStrategy<Hist> {
    let a = || Just(Loc { v: 0, r: 0 });
    let o = || Just(Loc { v: 1, r: 1 });
    let k = || (prop_oneof![Just(32u32), Just(64)], 0u16..5000).prop_map(|(len, s)| Pay { len, s });
    let one = prop_oneof![
        3 => (k(), huge()).prop_map(|(mut p, m)| {
            p.len = 32;
            (p, Spec::Sign { m, i: Loc { v: 0, r: 0 } })
        }),
        3 => (k(), any::<bool>(), prop_oneof![250usize..270, 30usize..1100], any::<u32>(), a(), o()).prop_map(|(p, key, n, x, i, o)| {
            let chain = (0..n as u32).map(|j| (x.wrapping_mul(2 * j + 1).wrapping_add(j) >> (j % 32)) | 1 << 31).collect();
            (p, Spec::Slip { key, i, chain, o })
        }),
        2 => (huge(), chain(), a(), o()).prop_map(|(p, chain, i, o)| (p, Spec::Slip { key: false, i, chain, o })),
        1 => (k(), huge(), o()).prop_map(|(p, n, o)| (p, Spec::SeedGen { n: Some(n.len as u64), o })),
        1 => (k(), "[ -~]{1,40}", 1usize..3000, mnemonic(), o()).prop_map(|(p, x, n, mn, o)| (p, Spec::MnRec { pass: Some(x.repeat(n)), mn, o })),
    ];
    (one, op(false)).prop_map(|((p, s), t)| Hist { init: vec![(Loc { v: 0, r: 0 }, p)], ops: vec![s, t] }).boxed()
}

/// Generated secrets: pairwise different, and really stored (the public key of a generated key verifies signatures).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    n: u32,
    msg: Pay,
}
fn gen(_: Tier) -> BoxedStrategy<Gen> {
    (2u32..12, small()).prop_map(|(n, msg)| Gen { n, msg }).boxed()
}
fn run_gen(g: &Gen) -> vh::R<Out> {
    use crypto::signatures::ed25519;
    use sh::{procedures::*, *};
    let e = |x: &dyn std::fmt::Display| vh::Failure::new("refused", x.to_string());
    let hold = Stronghold::default();
    let c = hold.create_client("a").unwrap();
    let mut pks: Vec<Vec<u8>> = vec![];
    for i in 0..g.n {
        let l = Location::generic("v", format!("k{i}"));
        let ty = if i % 2 == 0 { KeyType::Ed25519 } else { KeyType::X25519 };
        c.execute_procedure(GenerateKey { ty: ty.clone(), output: l.clone() }).map_err(|x| e(&x))?;
        let pk: Vec<u8> = c.execute_procedure(PublicKey { ty: ty.clone(), private_key: l.clone() }).map_err(|x| e(&x))?.to_vec();
        ensure_eq!(pk.len(), 32, "pk-size", "public key size");
        ensure!(!pks.contains(&pk), "repeated-key", "two generated keys are the same: {}", hex(&pk));
        if i % 2 == 0 {
            let sig: Vec<u8> = c.execute_procedure(Ed25519Sign { private_key: l.clone(), msg: g.msg.bytes() }).map_err(|x| e(&x))?.to_vec();
            let p = ed25519::PublicKey::try_from_bytes(pk.clone().try_into().unwrap()).map_err(|x| vh::Failure::new("pk-invalid", x.to_string()))?;
            let s = ed25519::Signature::from_bytes(sig.try_into().unwrap());
            ensure!(p.verify(&s, &g.msg.bytes()), "signature", "the signature does not verify");
        } else {
            // both sides of a Diffie-Hellman exchange agree
            let l2 = Location::generic("w", format!("k{i}"));
            c.execute_procedure(GenerateKey { ty: ty.clone(), output: l2.clone() }).map_err(|x| e(&x))?;
            let pk2: [u8; 32] = c.execute_procedure(PublicKey { ty: ty.clone(), private_key: l2.clone() }).map_err(|x| e(&x))?.to_vec().try_into().unwrap();
            let (o1, o2) = (Location::generic("o", format!("a{i}")), Location::generic("o", format!("b{i}")));
            c.execute_procedure(X25519DiffieHellman { public_key: pk2, private_key: l, shared_key: o1.clone() }).map_err(|x| e(&x))?;
            c.execute_procedure(X25519DiffieHellman { public_key: pk.clone().try_into().unwrap(), private_key: l2, shared_key: o2.clone() }).map_err(|x| e(&x))?;
            let mac = |l: &Location| c.execute_procedure(Hmac { hash_type: Sha2Hash::Sha512, msg: b"m".to_vec(), key: l.clone() });
            ensure!(mac(&o1).map_err(|x| e(&x))? == mac(&o2).map_err(|x| e(&x))?, "dh-agree", "the two sides derive different shared keys");
        }
        pks.push(pk);
    }
    // seeds: different each time
    let mut macs: Vec<Vec<u8>> = vec![];
    for i in 0..g.n {
        let l = Location::generic("s", format!("{i}"));
        c.execute_procedure(Slip10Generate { size_bytes: Some(32), output: l.clone() }).map_err(|x| e(&x))?;
        let m: Vec<u8> = c.execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: vec![], key: l }).map_err(|x| e(&x))?.to_vec();
        ensure!(!macs.contains(&m), "repeated-seed", "two generated seeds are the same");
        macs.push(m);
    }
    Ok(Out::new(true))
}

fn main() {
    if let Err(e) = refimpl::selftest() {
        eprintln!("ERROR: the reference implementations fail their vectors: {e}");
        std::process::exit(2);
    }
    vh::main(vec![Property {
        id: "C08",
        level: "exploration",
        assumptions: &["the reference implementations of harness/chk/src/refimpl.rs (checked against published vectors at start) follow the standards",
            "randomly generated secrets are checked for size, for being non-zero and pairwise different, and through the keys derived from them"],
        facets: vec![
            Facet { name: "derive", rule: "histories of key generation, SLIP-10 derivation, public key, signature and Diffie-Hellman procedures on generated secrets; non-trivial = at least one procedure succeeds", cases: (5000, 100000), batch: 20, racy: false, strategy, run: run_hist }.boxed(),
            Facet { name: "mnemonic", rule: "BIP39 generation and recovery with passphrases, both word lists and arbitrary sentences, followed by another procedure; non-trivial = at least one succeeds", cases: (500, 20000), batch: 10, racy: false, strategy: mn, run: run_hist }.boxed(),
            Facet { name: "large", rule: "a signature, derivation, seed generation or mnemonic recovery whose message, chain, seed or passphrase is far longer than usual (up to over 1 MiB, 1100 segments), followed by another procedure; non-trivial = at least one succeeds", cases: (400, 10000), batch: 10, racy: false, strategy: large, run: run_hist }.boxed(),
            Facet { name: "generated", rule: "several generated keys and seeds of one client: different, verifiable, and agreeing on both sides of an exchange; all non-trivial", cases: (300, 5000), batch: 20, racy: false, strategy: gen, run: run_gen }.boxed(),
        ],
        findings: vec![],
    }])
}
