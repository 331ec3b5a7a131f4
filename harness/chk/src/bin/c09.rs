//! C09: hash, MAC, KDF and cipher procedures against independent implementations.
use chk::{procs::*, *};
use vh::prelude::*;

fn op(odd: bool) -> BoxedStrategy<Spec> {
    let (nv, nr) = (2, 3);
    let l = move || loc(nv, nr);
    let nonce = move |n: u32| -> BoxedStrategy<Pay> {
        if odd {
            (prop_oneof![6 => Just(n), 1 => 0u32..40], 0u16..5000).prop_map(|(len, s)| Pay { len, s }).boxed()
        } else {
            (0u16..5000).prop_map(move |s| Pay { len: n, s }).boxed()
        }
    };
    let clen: BoxedStrategy<u64> = prop_oneof![40 => 0u64..200, 8 => 200u64..3000, 3 => 3000u64..40000, 1 => (2u64 << 20)..(2 << 20) + 70000].boxed();
    let big = || prop_oneof![4 => small(), 1 => pay()];
    let k = move || if odd { key_pay() } else { (0u16..5000).prop_map(|s| Pay { len: 32, s }).boxed() };
    let tm = move || if odd { tamper() } else { Just(Tamper::None).boxed() };
    prop_oneof![
        4 => (k(), l()).prop_map(|(p, o)| Spec::Write { p, o }),
        1 => (l(), any::<bool>()).prop_map(|(l, gc)| Spec::Revoke { l, gc }),
        2 => (l(), l()).prop_map(|(a, o)| Spec::Copy { a, o }),
        3 => (hs(), big(), l()).prop_map(|(h, m, i)| Spec::Mac { h, m, i }),
        3 => (hs(), small(), small(), l(), l()).prop_map(|(h, salt, label, i, o)| Spec::Hkdf { h, salt, label, i, o }),
        3 => (hs(), "\\PC{0,12}", l(), clen, small(), small(), small(), small(), l())
            .prop_map(|(h, alg, i, len, apu, apv, pi, si, o)| Spec::Ckdf { h, alg, i, len, apu, apv, pi, si, o }),
        3 => (l(), l()).prop_map(|(kek, key)| Spec::Wrap { kek, key }),
        3 => (l(), key_pay(), tm(), l()).prop_map(|(kek, p, t, o)| Spec::Unwrap { kek, p, t, o }),
        2 => (hs(), small(), small(), prop_oneof![1u32..40, 1u32..600], l()).prop_map(|(h, pw, salt, n, o)| Spec::Pbkdf { h, pw, salt, n, o }),
        3 => any::<bool>().prop_flat_map(move |x| (Just(x), big(), big(), nonce(if x { 24 } else { 12 }), l()))
            .prop_map(|(x, ad, m, nonce, i)| Spec::Enc { x, ad, m, nonce, i }),
        4 => (any::<bool>(), small(), big(), 0u16..5000, tm(), l())
            .prop_map(|(x, ad, m, s, t, i)| Spec::Dec { x, ad, m, s, t, i }),
        2 => (l(), l(), l()).prop_map(|(a, b, o)| Spec::Cat { a, b, o }),
    ]
    .boxed()
}
fn strategy(t: Tier) -> BoxedStrategy<Hist> {
    let n = if t == Tier::Quick { 16 } else { 40 };
    prop_oneof![hist(op(true), n), hist(op(false), n)].boxed()
}

/// One procedure with one input (or two) far longer than usual.
fn large(_: Tier) -> BoxedStrategy<Hist> {
    let a = || Just(Loc { v: 0, r: 0 });
    let b = || Just(Loc { v: 1, r: 1 });
    let o = || Just(Loc { v: 0, r: 2 });
    // five inputs, at least one of them huge
    let five = || {
        (0usize..5, 0usize..5, prop::collection::vec(small(), 5), huge(), huge()).prop_map(|(i, j, mut v, h, g)| {
            v[j] = g;
            v[i] = h;
            v
        })
    };
    // a secret: 32 bytes, or huge where that is allowed; wrapped secrets are multiples of 8
    let k = || (0u16..5000).prop_map(|s| Pay { len: 32, s });
    let any_secret = || prop_oneof![2 => k(), 1 => huge()];
    let op = prop_oneof![
        1 => (hs(), five(), any_secret(), any_secret()).prop_map(|(h, v, x, y)| (x, y, Spec::Mac { h, m: v[0], i: Loc { v: 0, r: 0 } })),
        2 => (hs(), huge(), small(), any::<bool>(), any_secret(), any_secret(), a(), o()).prop_map(|(h, p, q, f, x, y, i, o)| {
            let (salt, label) = if f { (p, q) } else { (q, p) };
            (x, y, Spec::Hkdf { h, salt, label, i, o })
        }),
        5 => (hs(), "[ -~]{0,9}", prop_oneof![4 => Just(0usize), 1 => 4090usize..70_000], prop_oneof![20 => 0u64..200, 1 => (1u64 << 16) - 40..(1 << 16) + 40], five(), any_secret(), any_secret(), a(), o())
            .prop_map(|(h, alg, pad, len, v, x, y, i, o)| (x, y, Spec::Ckdf { h, alg: alg + &"z".repeat(pad), i, len, apu: v[1], apv: v[2], pi: v[3], si: v[4], o })),
        3 => (k(), huge(), a(), b()).prop_map(|(x, mut y, kek, key)| {
            y.len &= !7;
            (x, y, Spec::Wrap { kek, key })
        }),
        3 => (k(), k(), huge(), tamper(), a(), o()).prop_map(|(x, y, mut p, t, kek, o)| {
            p.len &= !7;
            (x, y, Spec::Unwrap { kek, p, t, o })
        }),
        2 => (hs(), huge(), small(), any::<bool>(), 1u32..5, k(), k(), o()).prop_map(|(h, p, q, f, n, x, y, o)| {
            let (pw, salt) = if f { (p, q) } else { (q, p) };
            (x, y, Spec::Pbkdf { h, pw, salt, n, o })
        }),
        1 => (hs(), small(), small(), (1u32 << 16) - 3..(1 << 16) + 3000, k(), k(), o()).prop_map(|(h, pw, salt, n, x, y, o)| (x, y, Spec::Pbkdf { h, pw, salt, n, o })),
        3 => (any::<bool>(), five(), 0u16..5000, k(), k(), a()).prop_map(|(x, v, s, p, q, i)| {
            (p, q, Spec::Enc { x, ad: v[0], m: v[1], nonce: Pay { len: if x { 24 } else { 12 }, s }, i })
        }),
        3 => (any::<bool>(), five(), 0u16..5000, tamper(), k(), k(), a()).prop_map(|(x, v, s, t, p, q, i)| (p, q, Spec::Dec { x, ad: v[0], m: v[1], s, t, i })),
        2 => (any_secret(), any_secret(), a(), b(), o()).prop_map(|(x, y, a, b, o)| (x, y, Spec::Cat { a, b, o })),
        1 => (huge(), k(), a(), o()).prop_map(|(x, y, a, o)| (x, y, Spec::Copy { a, o })),
    ];
    op.prop_map(|(x, y, s)| Hist { init: vec![(Loc { v: 0, r: 0 }, x), (Loc { v: 1, r: 1 }, y)], ops: vec![s] }).boxed()
}

/// Every single-bit and single-byte-length change of an encryption or wrapping is refused.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tam {
    x: bool,
    key: u16,
    ad: Pay,
    m: Pay,
    bit: u8,
}
fn tam(_: Tier) -> BoxedStrategy<Tam> {
    (any::<bool>(), 2u16..5000, small(), (0u32..48, 2u16..5000).prop_map(|(len, s)| Pay { len, s }), 0u8..8)
        .prop_map(|(x, key, ad, m, bit)| Tam { x, key, ad, m, bit })
        .boxed()
}
fn run_tam(t: &Tam) -> vh::R<Out> {
    use sh::{procedures::*, *};
    let e = |x: ProcedureError| vh::Failure::new("refused", x.to_string());
    let hold = Stronghold::default();
    let c = hold.create_client("a").unwrap();
    let kl = Location::generic("v", "key");
    c.vault("v").write_secret(kl.clone(), bytes(32, t.key as u64)).unwrap();
    let cipher = if t.x { AeadCipher::XChaCha20Poly1305 } else { AeadCipher::Aes256Gcm };
    let nonce = bytes(if t.x { 24 } else { 12 }, t.key as u64 + 1);
    let (ad, m) = (t.ad.bytes(), t.m.bytes());
    let out: Vec<u8> = c
        .execute_procedure(AeadEncrypt { cipher, associated_data: ad.clone(), plaintext: m.clone(), nonce: nonce.clone(), key: kl.clone() })
        .map_err(e)?
        .to_vec();
    ensure_eq!(out.len(), 16 + m.len(), "output-size", "tag and ciphertext");
    let dec = |ad: &[u8], ct: &[u8], tag: &[u8], nonce: &[u8]| -> Result<Vec<u8>, ProcedureError> {
        c.execute_procedure(AeadDecrypt {
            cipher,
            associated_data: ad.to_vec(),
            ciphertext: ct.to_vec(),
            tag: tag.to_vec(),
            nonce: nonce.to_vec(),
            key: kl.clone(),
        })
        .map(|x| x.to_vec())
    };
    let (tag, ct) = out.split_at(16);
    ensure!(dec(&ad, ct, tag, &nonce).map_err(e)? == m, "roundtrip", "decryption does not return the plaintext");
    let refuse = |what: String, r: Result<Vec<u8>, ProcedureError>| -> vh::R<()> {
        ensure!(r.is_err(), "accepted-tampered", "decryption accepted {what}");
        Ok(())
    };
    let flip = |b: &[u8], i: usize| {
        let mut v = b.to_vec();
        v[i] ^= 1 << t.bit;
        v
    };
    for i in 0..ct.len() {
        refuse(format!("ciphertext byte {i} changed"), dec(&ad, &flip(ct, i), tag, &nonce))?;
    }
    for i in 0..16 {
        refuse(format!("tag byte {i} changed"), dec(&ad, ct, &flip(tag, i), &nonce))?;
        refuse(format!("tag cut to {i}"), dec(&ad, ct, &tag[..i], &nonce))?;
    }
    for i in 0..nonce.len() {
        refuse(format!("nonce byte {i} changed"), dec(&ad, ct, tag, &flip(&nonce, i)))?;
        refuse(format!("nonce cut to {i}"), dec(&ad, ct, tag, &nonce[..i]))?;
    }
    for i in 0..ad.len() {
        refuse(format!("associated data byte {i} changed"), dec(&flip(&ad, i), ct, tag, &nonce))?;
    }
    for i in 0..ct.len() {
        refuse(format!("ciphertext cut to {i}"), dec(&ad, &ct[..i], tag, &nonce))?;
    }
    refuse("longer tag".into(), dec(&ad, ct, &[tag, &[0][..]].concat(), &nonce))?;
    refuse("longer ciphertext".into(), dec(&ad, &[ct, &[0][..]].concat(), tag, &nonce))?;
    refuse("longer associated data".into(), dec(&[&ad[..], &[0][..]].concat(), ct, tag, &nonce))?;
    for i in 0..32 {
        let l = Location::generic("v", "other");
        c.vault("v").write_secret(l.clone(), flip(&bytes(32, t.key as u64), i)).unwrap();
        let r = c.execute_procedure(AeadDecrypt { cipher, associated_data: ad.clone(), ciphertext: ct.to_vec(), tag: tag.to_vec(), nonce: nonce.clone(), key: l });
        refuse(format!("key byte {i} changed"), r.map(|x| x.to_vec()))?;
    }
    // key wrapping of the same message padded to a multiple of 8 bytes, at least two blocks
    let mut sec = m.clone();
    sec.resize((m.len() + 23) / 8 * 8, 7);
    let (sl, o) = (Location::generic("v", "sec"), Location::generic("o", "out"));
    c.vault("v").write_secret(sl.clone(), sec.clone()).unwrap();
    let w: Vec<u8> = c
        .execute_procedure(AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: kl.clone(), wrap_key: sl })
        .map_err(e)?
        .to_vec();
    let unwrap = |w: Vec<u8>| {
        c.execute_procedure(AesKeyWrapDecrypt { cipher: AesKeyWrapCipher::Aes256, decryption_key: kl.clone(), wrapped_key: w, output: o.clone() })
    };
    for i in 0..w.len() {
        ensure!(unwrap(flip(&w, i)).is_err(), "accepted-tampered-wrap", "unwrapping accepted byte {i} changed");
        ensure!(unwrap(w[..i].to_vec()).is_err(), "accepted-tampered-wrap", "unwrapping accepted a wrapping cut to {i}");
    }
    ensure!(unwrap([&w[..], &w[..8]].concat()).is_err(), "accepted-tampered-wrap", "unwrapping accepted a longer wrapping");
    ensure!(!c.record_exists(&o).unwrap(), "stored-tampered", "a refused unwrapping stored a secret");
    unwrap(w).map_err(e)?;
    check_secret(&c, &o, Some(&sec), "unwrapped")?;
    Ok(Out::new(true).tag(if t.x { "xchacha" } else { "gcm" }))
}

fn main() {
    if let Err(e) = refimpl::selftest() {
        eprintln!("ERROR: the reference implementations fail their vectors: {e}");
        std::process::exit(2);
    }
    vh::main(vec![Property {
        id: "C09",
        level: "exploration",
        assumptions: &["the reference implementations of harness/chk/src/refimpl.rs (checked against published vectors at start) follow the standards"],
        facets: vec![
            Facet { name: "functions", rule: "histories of MAC, KDF, cipher, key wrap, copy and concatenation procedures on generated secrets with valid, odd and tampered inputs; non-trivial = at least one procedure succeeds", cases: (5000, 100000), batch: 20, racy: false, strategy, run: run_hist }.boxed(),
            Facet { name: "large", rule: "one procedure whose texts, keys, wrapped secrets or lengths are 4 KiB to over 1 MiB, with lengths around powers of two; non-trivial = the procedure succeeds", cases: (350, 8000), batch: 10, racy: false, strategy: large, run: run_hist }.boxed(),
            Facet { name: "tampering", rule: "one encryption and one key wrapping per case with a change at every byte position of every input; all non-trivial", cases: (400, 8000), batch: 10, racy: false, strategy: tam, run: run_tam }.boxed(),
        ],
        findings: vec![],
    }])
}
