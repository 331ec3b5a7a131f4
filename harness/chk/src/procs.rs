//! Generated procedures with a reference evaluator over a model of the vault.
use crate::{refimpl as r, *};
use sh::procedures::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hs {
    A,
    B,
    C,
}
impl Hs {
    pub fn h(self) -> r::H {
        match self {
            Hs::A => r::H::S256,
            Hs::B => r::H::S384,
            Hs::C => r::H::S512,
        }
    }
    pub fn s(self) -> Sha2Hash {
        match self {
            Hs::A => Sha2Hash::Sha256,
            Hs::B => Sha2Hash::Sha384,
            Hs::C => Sha2Hash::Sha512,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tamper {
    None,
    FlipCt(u16, u8),
    FlipTag(u8),
    FlipNonce(u8),
    AddAd,
    DropTagByte,
    ExtendCt,
    DropCtByte,
    ShortNonce,
    TagFirstByteOnly,
}

/// Sizes of seeds, some of which cannot be had.
pub fn seed_len(s: impl Strategy<Value = u64> + 'static) -> BoxedStrategy<Option<u64>> {
    prop::option::of(prop_oneof![12 => s, 1 => (0u64..4).prop_map(|i| [1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX][i as usize])]).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spec {
    Write { p: Pay, o: Loc },
    Revoke { l: Loc, gc: bool },
    Gc { v: u8 },
    Copy { a: Loc, o: Loc },
    SeedGen { n: Option<u64>, o: Loc },
    Slip { key: bool, i: Loc, chain: Vec<u32>, o: Loc },
    MnGen { pass: Option<String>, jp: bool, o: Loc },
    MnRec { pass: Option<String>, mn: String, o: Loc },
    Gen { x: bool, o: Loc },
    Pub { x: bool, i: Loc },
    Sign { m: Pay, i: Loc },
    Dh { s: u16, i: Loc, o: Loc },
    Mac { h: Hs, m: Pay, i: Loc },
    Hkdf { h: Hs, salt: Pay, label: Pay, i: Loc, o: Loc },
    Ckdf { h: Hs, alg: String, i: Loc, len: u64, apu: Pay, apv: Pay, pi: Pay, si: Pay, o: Loc },
    Wrap { kek: Loc, key: Loc },
    Unwrap { kek: Loc, p: Pay, t: Tamper, o: Loc },
    Pbkdf { h: Hs, pw: Pay, salt: Pay, n: u32, o: Loc },
    Enc { x: bool, ad: Pay, m: Pay, nonce: Pay, i: Loc },
    Dec { x: bool, ad: Pay, m: Pay, s: u16, t: Tamper, i: Loc },
    Cat { a: Loc, b: Loc, o: Loc },
    Cmp { i: Loc, p: Pay },
}

/// What the model knows about a stored secret.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Known(Vec<u8>),
    /// random bytes of this length
    Len(usize),
}
impl Val {
    pub fn len(&self) -> usize {
        match self {
            Val::Known(v) => v.len(),
            Val::Len(n) => *n,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Slot {
    Live(Val),
    Revoked,
}
pub type Model = BTreeMap<Loc, Slot>;

/// The reference's answer.
pub enum Pred {
    Err(&'static str),
    /// expected output bytes (None: unknown), secret to be stored
    Ok { out: Option<Vec<u8>>, secret: Option<Val> },
    /// a mnemonic is returned and its seed stored
    Mnemonic { pass: String, jp: bool },
    Unit,
}

fn ok(v: Vec<u8>) -> Pred {
    Pred::Ok { out: Some(v), secret: None }
}
fn store(v: Vec<u8>) -> Pred {
    Pred::Ok { out: Some(vec![]), secret: Some(Val::Known(v)) }
}

/// Inputs that depend on the model: (ciphertext/wrapped key, tag, nonce, ad)
pub struct Crafted {
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
    pub nonce: Vec<u8>,
    pub ad: Vec<u8>,
}

fn key_of(m: &Model, l: &Loc) -> Option<Vec<u8>> {
    match m.get(l) {
        Some(Slot::Live(Val::Known(v))) => Some(v.clone()),
        _ => None,
    }
}

impl Spec {
    pub fn target(&self) -> Option<Loc> {
        use Spec::*;
        match self {
            Write { o, .. } | Copy { o, .. } | SeedGen { o, .. } | Slip { o, .. } | MnGen { o, .. } | MnRec { o, .. }
            | Gen { o, .. } | Dh { o, .. } | Hkdf { o, .. } | Ckdf { o, .. } | Unwrap { o, .. } | Pbkdf { o, .. }
            | Cat { o, .. } => Some(*o),
            _ => None,
        }
    }
    pub fn sources(&self) -> Vec<Loc> {
        use Spec::*;
        match self {
            Copy { a, .. } => vec![*a],
            Slip { i, .. } | Pub { i, .. } | Sign { i, .. } | Dh { i, .. } | Mac { i, .. } | Hkdf { i, .. } | Ckdf { i, .. }
            | Enc { i, .. } | Dec { i, .. } | Cmp { i, .. } => vec![*i],
            Wrap { kek, key } => vec![*kek, *key],
            Unwrap { kek, .. } => vec![*kek],
            Cat { a, b, .. } => vec![*a, *b],
            _ => vec![],
        }
    }
    pub fn locs(&self) -> Vec<Loc> {
        let mut v = self.sources();
        v.extend(self.target());
        if let Spec::Revoke { l, .. } = self {
            v.push(*l)
        }
        v
    }
    pub fn name(&self) -> &'static str {
        use Spec::*;
        match self {
            Write { .. } => "write",
            Revoke { .. } => "revoke",
            Gc { .. } => "gc",
            Copy { .. } => "copy",
            SeedGen { .. } => "seedgen",
            Slip { key: true, .. } => "slip10-key",
            Slip { .. } => "slip10-seed",
            MnGen { .. } => "bip39-gen",
            MnRec { .. } => "bip39-rec",
            Gen { .. } => "genkey",
            Pub { x: true, .. } => "pub-x25519",
            Pub { .. } => "pub-ed25519",
            Sign { .. } => "sign",
            Dh { .. } => "dh",
            Mac { .. } => "hmac",
            Hkdf { .. } => "hkdf",
            Ckdf { .. } => "concat-kdf",
            Wrap { .. } => "kw-wrap",
            Unwrap { .. } => "kw-unwrap",
            Pbkdf { .. } => "pbkdf2",
            Enc { x: true, .. } => "enc-xchacha",
            Enc { .. } => "enc-gcm",
            Dec { x: true, .. } => "dec-xchacha",
            Dec { .. } => "dec-gcm",
            Cat { .. } => "concat",
            Cmp { .. } => "compare",
        }
    }

    pub fn craft(&self, m: &Model) -> Option<Crafted> {
        match self {
            Spec::Unwrap { kek, p, t, .. } => {
                let k = key_of(m, kek).filter(|k| k.len() == 32).unwrap_or(vec![7; 32]);
                let mut ct = r::aes_kw_wrap(&k, &p.bytes()).unwrap_or_else(|| p.bytes());
                match t {
                    Tamper::FlipCt(n, b) if !ct.is_empty() => {
                        let n = *n as usize % ct.len();
                        ct[n] ^= 1 << (b % 8)
                    }
                    Tamper::FlipTag(n) if ct.len() >= 8 => ct[*n as usize % 8] ^= 1 << (n % 8),
                    Tamper::DropCtByte => {
                        ct.pop();
                    }
                    Tamper::ExtendCt => ct.extend([0; 8]),
                    Tamper::ShortNonce => ct.truncate(7),
                    _ => {}
                }
                Some(Crafted { ct, tag: vec![], nonce: vec![], ad: vec![] })
            }
            Spec::Dec { x, ad, m: msg, s, t, i } => {
                let k = key_of(m, i).filter(|k| k.len() == 32).unwrap_or(vec![9; 32]);
                let mut nonce = bytes(if *x { 24 } else { 12 }, *s as u64);
                let mut ad = ad.bytes();
                let (mut ct, mut tag) =
                    if *x { r::xchacha_seal(&k, &nonce, &ad, &msg.bytes()) } else { r::gcm_seal(&k, &nonce, &ad, &msg.bytes()) };
                match t {
                    Tamper::FlipCt(n, b) if !ct.is_empty() => {
                        let n = *n as usize % ct.len();
                        ct[n] ^= 1 << (b % 8)
                    }
                    Tamper::FlipTag(n) => tag[*n as usize % 16] ^= 1 << (n / 16 % 8),
                    Tamper::FlipNonce(n) => {
                        let l = nonce.len();
                        nonce[*n as usize % l] ^= 1 << (n / 24 % 8)
                    }
                    Tamper::AddAd => ad.push(0),
                    Tamper::DropTagByte => {
                        tag.pop();
                    }
                    Tamper::ExtendCt => ct.push(0),
                    Tamper::DropCtByte => {
                        ct.pop();
                    }
                    Tamper::ShortNonce => {
                        nonce.pop();
                    }
                    Tamper::TagFirstByteOnly => tag.truncate(1),
                    _ => {}
                }
                Some(Crafted { ct, tag, nonce, ad })
            }
            _ => None,
        }
    }

    pub fn build(&self, m: &Model) -> StrongholdProcedure {
        use Spec::*;
        let cr = self.craft(m);
        match self.clone() {
            Write { p, o } => WriteVault { data: p.bytes(), location: o.get() }.into(),
            Revoke { l, gc } => RevokeData { location: l.get(), should_gc: gc }.into(),
            Gc { v } => GarbageCollect { vault_path: vault_path(v) }.into(),
            Copy { a, o } => CopyRecord { source: a.get(), target: o.get() }.into(),
            SeedGen { n, o } => Slip10Generate { size_bytes: n.map(|n| n as usize), output: o.get() }.into(),
            Slip { key, i, chain, o } => Slip10Derive {
                chain: Chain::from_u32(chain),
                input: if key { Slip10DeriveInput::Key(i.get()) } else { Slip10DeriveInput::Seed(i.get()) },
                output: o.get(),
            }
            .into(),
            MnGen { pass, jp, o } => BIP39Generate {
                passphrase: pass,
                language: if jp { MnemonicLanguage::Japanese } else { MnemonicLanguage::English },
                output: o.get(),
            }
            .into(),
            MnRec { pass, mn, o } => BIP39Recover { passphrase: pass, mnemonic: mn, output: o.get() }.into(),
            Gen { x, o } => GenerateKey { ty: kt(x), output: o.get() }.into(),
            Pub { x, i } => PublicKey { ty: kt(x), private_key: i.get() }.into(),
            Sign { m, i } => Ed25519Sign { msg: m.bytes(), private_key: i.get() }.into(),
            Dh { s, i, o } => {
                X25519DiffieHellman { public_key: dh_public(s), private_key: i.get(), shared_key: o.get() }.into()
            }
            Mac { h, m, i } => Hmac { hash_type: h.s(), msg: m.bytes(), key: i.get() }.into(),
            Hkdf { h, salt, label, i, o } => sh::procedures::Hkdf {
                hash_type: h.s(),
                salt: salt.bytes(),
                label: label.bytes(),
                ikm: i.get(),
                okm: o.get(),
            }
            .into(),
            Ckdf { h, alg, i, len, apu, apv, pi, si, o } => ConcatKdf {
                hash: h.s(),
                algorithm_id: alg,
                shared_secret: i.get(),
                key_len: len as usize,
                apu: apu.bytes(),
                apv: apv.bytes(),
                pub_info: pi.bytes(),
                priv_info: si.bytes(),
                output: o.get(),
            }
            .into(),
            Wrap { kek, key } => AesKeyWrapEncrypt {
                cipher: AesKeyWrapCipher::Aes256,
                encryption_key: kek.get(),
                wrap_key: key.get(),
            }
            .into(),
            Unwrap { kek, o, .. } => AesKeyWrapDecrypt {
                cipher: AesKeyWrapCipher::Aes256,
                decryption_key: kek.get(),
                wrapped_key: cr.unwrap().ct,
                output: o.get(),
            }
            .into(),
            Pbkdf { h, pw, salt, n, o } => Pbkdf2Hmac {
                hash_type: h.s(),
                password: pw.bytes(),
                salt: salt.bytes(),
                count: core::num::NonZeroU32::new(n.max(1)).unwrap(),
                output: o.get(),
            }
            .into(),
            Enc { x, ad, m, nonce, i } => AeadEncrypt {
                cipher: ci(x),
                associated_data: ad.bytes(),
                plaintext: m.bytes(),
                nonce: nonce.bytes(),
                key: i.get(),
            }
            .into(),
            Dec { x, i, .. } => {
                let c = cr.unwrap();
                AeadDecrypt {
                    cipher: ci(x),
                    associated_data: c.ad,
                    ciphertext: c.ct,
                    tag: c.tag,
                    nonce: c.nonce,
                    key: i.get(),
                }
                .into()
            }
            Cat { a, b, o } => {
                ConcatSecret { location_a: a.get(), location_b: b.get(), output_location: o.get() }.into()
            }
            Cmp { i, p } => CompareSecret { location: i.get(), expected: p.bytes() }.into(),
        }
    }

    /// The reference semantics.
    pub fn predict(&self, m: &Model) -> Pred {
        use Spec::*;
        let mut src = vec![];
        for l in self.sources() {
            match m.get(&l) {
                Some(Slot::Live(v)) => src.push(v.clone()),
                _ => return Pred::Err("missing source"),
            }
        }
        let known: Option<Vec<Vec<u8>>> =
            src.iter().map(|v| if let Val::Known(b) = v { Some(b.clone()) } else { None }).collect();
        let k = |n: usize| known.as_ref().map(|v| v[n].clone());
        let p = match self {
            Write { p, .. } => store(p.bytes()),
            Revoke { .. } | Gc { .. } => Pred::Unit,
            Copy { .. } => Pred::Ok { out: Some(vec![]), secret: Some(src[0].clone()) },
            SeedGen { n, .. } => {
                let n = n.unwrap_or(64) as usize;
                if n > 1 << 60 {
                    return Pred::Err("seed size");
                }
                Pred::Ok { out: Some(vec![]), secret: Some(if n == 0 { Val::Known(vec![]) } else { Val::Len(n) }) }
            }
            Slip { key, chain, .. } => {
                if *key && src[0].len() != 64 {
                    Pred::Err("parent key size")
                } else if chain.iter().any(|i| *i < 1 << 31) {
                    Pred::Err("non-hardened segment")
                } else {
                    match k(0) {
                        Some(s) => {
                            let parent = if *key { s } else { r::slip10_master(&s) };
                            let d = r::slip10_child(&parent, chain).unwrap();
                            Pred::Ok { out: Some(d[32..].to_vec()), secret: Some(Val::Known(d)) }
                        }
                        None => Pred::Ok { out: None, secret: Some(Val::Len(64)) },
                    }
                }
            }
            MnGen { pass, jp, .. } => Pred::Mnemonic { pass: pass.clone().unwrap_or_default(), jp: *jp },
            MnRec { pass, mn, .. } => store(r::bip39_seed(mn, pass.as_deref().unwrap_or(""))),
            Gen { .. } => Pred::Ok { out: Some(vec![]), secret: Some(Val::Len(32)) },
            Pub { x, .. } => {
                if *x && src[0].len() != 32 || src[0].len() < 32 {
                    Pred::Err("key size")
                } else {
                    Pred::Ok {
                        out: k(0).map(|s| {
                            if *x {
                                r::x25519_pk(&s.try_into().unwrap()).to_vec()
                            } else {
                                r::ed25519_pk(&s).to_vec()
                            }
                        }),
                        secret: None,
                    }
                }
            }
            Sign { m, .. } => {
                if src[0].len() < 32 {
                    Pred::Err("key size")
                } else {
                    Pred::Ok { out: k(0).map(|s| r::ed25519_sign(&s, &m.bytes()).to_vec()), secret: None }
                }
            }
            Dh { s, .. } => {
                if src[0].len() != 32 {
                    Pred::Err("key size")
                } else {
                    match k(0) {
                        Some(sk) => store(r::x25519(&sk.try_into().unwrap(), &dh_public(*s)).to_vec()),
                        // with a point of low order the result is the same (zero) for every key
                        None => match r::x25519(&[64; 32], &dh_public(*s)) {
                            z if z == [0; 32] => store(vec![0; 32]),
                            _ => Pred::Ok { out: Some(vec![]), secret: Some(Val::Len(32)) },
                        },
                    }
                }
            }
            Mac { h, m, .. } => Pred::Ok { out: k(0).map(|key| h.h().hmac(&key, &m.bytes())), secret: None },
            Hkdf { h, salt, label, .. } => match k(0) {
                Some(ikm) => store(h.h().hkdf(&salt.bytes(), &ikm, &label.bytes())),
                None => Pred::Ok { out: Some(vec![]), secret: Some(Val::Len(h.h().len())) },
            },
            Ckdf { h, alg, len, apu, apv, pi, si, .. } => {
                if (*len as u128 + h.h().len() as u128 - 1) / h.h().len() as u128 > u32::MAX as u128 {
                    Pred::Err("too long")
                } else {
                    match k(0) {
                        Some(z) => store(h.h().concat_kdf(
                            &z,
                            *len as usize,
                            alg.as_bytes(),
                            &apu.bytes(),
                            &apv.bytes(),
                            &pi.bytes(),
                            &si.bytes(),
                        )),
                        None => Pred::Ok {
                            out: Some(vec![]),
                            secret: Some(if *len == 0 { Val::Known(vec![]) } else { Val::Len(*len as usize) }),
                        },
                    }
                }
            }
            Wrap { .. } => {
                if src[0].len() != 32 {
                    Pred::Err("kek size")
                } else if src[1].len() % 8 != 0 {
                    Pred::Err("key not a multiple of 8")
                } else {
                    Pred::Ok { out: known.as_ref().map(|v| r::aes_kw_wrap(&v[0], &v[1]).unwrap()), secret: None }
                }
            }
            Unwrap { .. } => {
                let ct = self.craft(m).unwrap().ct;
                // the wrapping of nothing is the same under every key
                let any = (ct.len() == 8 && src[0].len() == 32).then(|| vec![0; 32]);
                match k(0).or(any) {
                    // a random key authenticates a foreign wrapping with probability 2^-64
                    None => Pred::Err("wrong key"),
                    Some(kek) => match r::aes_kw_unwrap(&kek, &ct) {
                        Some(p) => store(p),
                        None => Pred::Err("unwrap"),
                    },
                }
            }
            Pbkdf { h, pw, salt, n, .. } => {
                store(h.h().pbkdf2(&pw.bytes(), &salt.bytes(), (*n).max(1), h.h().len()))
            }
            Enc { x, ad, m, nonce, .. } => {
                if src[0].len() != 32 {
                    Pred::Err("key size")
                } else if nonce.len != if *x { 24 } else { 12 } {
                    Pred::Err("nonce size")
                } else {
                    Pred::Ok {
                        out: k(0).map(|key| {
                            let (c, mut t) = if *x {
                                r::xchacha_seal(&key, &nonce.bytes(), &ad.bytes(), &m.bytes())
                            } else {
                                r::gcm_seal(&key, &nonce.bytes(), &ad.bytes(), &m.bytes())
                            };
                            t.extend(c);
                            t
                        }),
                        secret: None,
                    }
                }
            }
            Dec { x, .. } => {
                let c = self.craft(m).unwrap();
                if src[0].len() != 32 {
                    Pred::Err("key size")
                } else if c.nonce.len() != if *x { 24 } else { 12 } || c.tag.len() != 16 {
                    Pred::Err("nonce or tag size")
                } else {
                    let pt = k(0).and_then(|key| {
                        if *x {
                            r::xchacha_open(&key, &c.nonce, &c.ad, &c.ct, &c.tag)
                        } else {
                            r::gcm_open(&key, &c.nonce, &c.ad, &c.ct, &c.tag)
                        }
                    });
                    match pt {
                        Some(p) => ok(p),
                        None => Pred::Err("authentication"),
                    }
                }
            }
            Cat { .. } => match &known {
                Some(v) => store(v.concat()),
                None => Pred::Ok { out: Some(vec![]), secret: Some(Val::Len(src[0].len() + src[1].len())) },
            },
            Cmp { p, .. } => match k(0) {
                Some(v) => ok(vec![(v == p.bytes()) as u8]),
                None => Pred::Ok { out: Some(vec![0]), secret: None },
            },
        };
        match (&p, self.target()) {
            (Pred::Ok { .. } | Pred::Mnemonic { .. }, Some(t)) if m.get(&t) == Some(&Slot::Revoked) => {
                Pred::Err("target revoked and not collected")
            }
            _ => p,
        }
    }

    /// Applies the model effect of a successful execution and checks its output.
    pub fn apply(&self, m: &mut Model, out: Vec<u8>, what: &str) -> vh::R<()> {
        match self.predict(m) {
            Pred::Err(e) => fail!(format!("accepted:{}", self.name()), "{what}: succeeded, but must be refused ({e})"),
            Pred::Unit => match self {
                Spec::Revoke { l, gc } => {
                    if let Some(s) = m.get_mut(l) {
                        *s = Slot::Revoked
                    }
                    if *gc {
                        m.retain(|k, s| !(k.v == l.v && *s == Slot::Revoked));
                    }
                }
                Spec::Gc { v } => m.retain(|k, s| !(k.v == *v && *s == Slot::Revoked)),
                _ => unreachable!(),
            },
            Pred::Ok { out: exp, secret } => {
                if let Some(e) = exp {
                    ensure!(
                        out == e,
                        format!("output:{}", self.name()),
                        "{what}: output {} expected {}",
                        hex(&out[..out.len().min(80)]),
                        hex(&e[..e.len().min(80)])
                    );
                }
                if let Some(s) = secret {
                    m.insert(self.target().unwrap(), Slot::Live(s));
                }
            }
            Pred::Mnemonic { pass, jp } => {
                let s = String::from_utf8(out).map_err(|_| vh::Failure::new("mnemonic-utf8", what.to_string()))?;
                check_mnemonic(&s, jp, what)?;
                m.insert(self.target().unwrap(), Slot::Live(Val::Known(r::bip39_seed(&s, &pass))));
            }
        }
        Ok(())
    }
}

fn check_mnemonic(s: &str, jp: bool, what: &str) -> vh::R<()> {
    use crypto::keys::bip39::wordlist;
    let list = if jp { wordlist::JAPANESE } else { wordlist::ENGLISH };
    let words: Vec<&str> = s.split(list.separator).collect();
    ensure_eq!(words.len(), 24, "mnemonic-words", "{what}: number of words for 256 bits of entropy");
    // own decoding: 24 * 11 bits = 256 bits of entropy and 8 bits of checksum
    let mut bits = vec![];
    for w in words {
        let idx = list.words.iter().position(|x| *x == w);
        ensure!(idx.is_some(), "mnemonic-word", "{what}: {w:?} is not in the word list");
        for b in (0..11).rev() {
            bits.push((idx.unwrap() >> b & 1) as u8);
        }
    }
    let by: Vec<u8> = bits.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
    ensure_eq!(by[32], r::H::S256.hash(&[&by[..32]])[0], "mnemonic-checksum", "{what}: checksum");
    ensure!(by[..32] != [0u8; 32], "mnemonic-entropy", "{what}: zero entropy");
    Ok(())
}

fn kt(x: bool) -> KeyType {
    if x {
        KeyType::X25519
    } else {
        KeyType::Ed25519
    }
}
fn ci(x: bool) -> AeadCipher {
    if x {
        AeadCipher::XChaCha20Poly1305
    } else {
        AeadCipher::Aes256Gcm
    }
}
/// Peer public keys: real ones, arbitrary strings, and low-order points.
pub fn dh_public(s: u16) -> [u8; 32] {
    match s {
        0 => [0; 32],
        1 => {
            let mut a = [0; 32];
            a[0] = 1;
            a
        }
        2 => [0xff; 32],
        s if s % 2 == 0 => bytes(32, s as u64).try_into().unwrap(),
        s => r::x25519_pk(&bytes(32, s as u64).try_into().unwrap()),
    }
}

pub enum Stop {
    Err(String),
}

/// Runs one procedure and judges the result against the reference. Returns whether it succeeded.
pub fn step(c: &Client, s: &Spec, m: &mut Model, what: &str) -> vh::R<bool> {
    step_with(c, s, m, what, Ok)
}
/// The same with a transformation of the procedure before it is executed.
pub fn step_with(c: &Client, s: &Spec, m: &mut Model, what: &str, f: fn(StrongholdProcedure) -> vh::R<StrongholdProcedure>) -> vh::R<bool> {
    let p = f(s.build(m))?;
    let res = c.execute_procedure_chained(vec![p]);
    match res {
        Ok(v) => {
            ensure_eq!(v.len(), 1, "output-count", "{what}: number of outputs");
            s.apply(m, v.into_iter().next().unwrap().into(), what)?;
            Ok(true)
        }
        Err(e) => match s.predict(m) {
            Pred::Err(_) => Ok(false),
            _ => fail!(format!("refused:{}", s.name()), "{what}: refused with {e}"),
        },
    }
}

/// Compares the vault with the model at these locations.
pub fn check_model(c: &Client, m: &Model, locs: &[Loc], what: &str) -> vh::R<()> {
    for l in locs {
        match m.get(l) {
            Some(Slot::Live(Val::Known(v))) => check_secret(c, &l.get(), Some(v), what)?,
            Some(Slot::Live(Val::Len(n))) => {
                ensure!(c.record_exists(&l.get()).unwrap_or(false), "missing", "{what}: generated secret at {l:?} missing");
                match cmp_secret(c, &l.get(), &vec![0; *n]) {
                    Ok(z) => ensure!(!z || *n < 4, "zero-secret", "{what}: the generated secret at {l:?} is all zero"),
                    Err(e) => fail!("unreadable", "{what}: generated secret at {l:?}: {e}"),
                }
            }
            _ => check_secret(c, &l.get(), None, what)?,
        }
    }
    Ok(())
}

// --- generators ---------------------------------------------------------------------------------------

pub fn hs() -> BoxedStrategy<Hs> {
    prop_oneof![Just(Hs::A), Just(Hs::B), Just(Hs::C)].boxed()
}
pub fn small() -> BoxedStrategy<Pay> {
    (prop_oneof![3 => 0u32..40, 1 => 40u32..300, 1 => prop::sample::select(vec![0u32,1,31,32,33,63,64,65,127,128,129])], 0u16..5000)
        .prop_map(|(len, s)| Pay { len, s })
        .boxed()
}
/// Lengths around the limits of narrower counters, and up to a mebibyte and more.
pub fn huge() -> BoxedStrategy<Pay> {
    (
        prop_oneof![
            4 => (prop::sample::select(vec![12u32, 13, 14, 15, 16, 16, 16, 17, 18]), 0u32..40).prop_map(|(b, d)| (1 << b) + d - 20),
            2 => 4096u32..300_000,
            1 => (1u32 << 20) - 4..(1 << 20) + 70_000,
        ],
        0u16..5000,
    )
        .prop_map(|(len, s)| Pay { len, s })
        .boxed()
}
/// Secrets of the sizes that procedures accept, and others.
pub fn key_pay() -> BoxedStrategy<Pay> {
    (
        prop_oneof![6 => Just(32u32), 4 => Just(64u32), 2 => prop::sample::select(vec![0u32, 1, 8, 16, 24, 31, 33, 40, 48, 63, 65, 72, 128, 129, 200]), 1 => 0u32..100],
        0u16..5000,
    )
        .prop_map(|(len, s)| Pay { len, s })
        .boxed()
}
pub fn chain() -> BoxedStrategy<Vec<u32>> {
    let hard = prop_oneof![
        4 => (0u32..100).prop_map(|i| i | 1 << 31),
        1 => any::<u32>().prop_map(|i| i | 1 << 31),
        1 => prop::sample::select(vec![u32::MAX, 1 << 31]),
    ];
    prop_oneof![
        5 => prop::collection::vec(hard.clone(), 0..6),
        1 => prop::collection::vec(hard.clone(), 6..12),
        1 => prop::collection::vec(prop_oneof![8 => hard, 1 => 0u32..100, 1 => Just((1u32 << 31) - 1)], 1..5),
    ]
    .boxed()
}
pub fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        6 => Just(Tamper::None),
        3 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Tamper::FlipCt(a, b)),
        2 => any::<u8>().prop_map(Tamper::FlipTag),
        1 => any::<u8>().prop_map(Tamper::FlipNonce),
        1 => Just(Tamper::AddAd),
        1 => Just(Tamper::DropTagByte),
        1 => Just(Tamper::ExtendCt),
        1 => Just(Tamper::DropCtByte),
        1 => Just(Tamper::ShortNonce),
        1 => Just(Tamper::TagFirstByteOnly),
    ]
    .boxed()
}
pub fn pass() -> BoxedStrategy<Option<String>> {
    prop_oneof![2 => Just(None), 1 => Just(Some(String::new())), 2 => "[ -~]{1,20}".prop_map(Some), 1 => "\\PC{1,8}".prop_map(Some),
        // composed and decomposed forms must give the same seed
        1 => prop::sample::select(vec!["caf\u{e9}".to_string(), "cafe\u{301}".into(), "\u{3071}\u{30b9}".into(), "\u{fb01}".into()]).prop_map(Some)]
    .boxed()
}
pub fn mnemonic() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (prop::collection::vec(0usize..2048, 24), any::<bool>()).prop_map(|(v, jp)| {
            use crypto::keys::bip39::wordlist;
            let l = if jp { wordlist::JAPANESE } else { wordlist::ENGLISH };
            v.into_iter().map(|i| l.words[i]).collect::<Vec<_>>().join(l.separator)
        }),
        1 => "[a-z ]{0,60}",
        1 => "\\PC{0,20}",
    ]
    .boxed()
}
/// All procedures over the given locations. `odd`: also arguments that must be refused.
pub fn spec(nv: u8, nr: u8, odd: bool) -> BoxedStrategy<Spec> {
    let l = move || loc(nv, nr);
    let nonce = move |n: u32| -> BoxedStrategy<Pay> {
        if odd {
            (prop_oneof![6 => Just(n), 1 => 0u32..40], 0u16..5000).prop_map(|(len, s)| Pay { len, s }).boxed()
        } else {
            (0u16..5000).prop_map(move |s| Pay { len: n, s }).boxed()
        }
    };
    let clen: BoxedStrategy<u64> = if odd {
        prop_oneof![8 => 0u64..200, 1 => Just(u64::MAX), 1 => Just(u64::MAX - 100), 1 => Just(1u64 << 40)].boxed()
    } else {
        prop_oneof![4 => 0u64..200, 1 => 200u64..3000].boxed()
    };
    prop_oneof![
        6 => (key_pay(), l()).prop_map(|(p, o)| Spec::Write { p, o }),
        1 => (l(), any::<bool>()).prop_map(|(l, gc)| Spec::Revoke { l, gc }),
        1 => (0..nv).prop_map(|v| Spec::Gc { v }),
        1 => (l(), l()).prop_map(|(a, o)| Spec::Copy { a, o }),
        1 => (seed_len(0u64..200), l()).prop_map(|(n, o)| Spec::SeedGen { n, o }),
        2 => (any::<bool>(), l(), chain(), l()).prop_map(|(key, i, chain, o)| Spec::Slip { key, i, chain, o }),
        1 => (any::<bool>(), l()).prop_map(|(x, o)| Spec::Gen { x, o }),
        2 => (any::<bool>(), l()).prop_map(|(x, i)| Spec::Pub { x, i }),
        2 => (small(), l()).prop_map(|(m, i)| Spec::Sign { m, i }),
        2 => (0u16..2000, l(), l()).prop_map(|(s, i, o)| Spec::Dh { s, i, o }),
        2 => (hs(), small(), l()).prop_map(|(h, m, i)| Spec::Mac { h, m, i }),
        2 => (hs(), small(), small(), l(), l()).prop_map(|(h, salt, label, i, o)| Spec::Hkdf { h, salt, label, i, o }),
        2 => (hs(), "[ -~]{0,20}", l(), clen, small(), small(), small(), small(), l())
            .prop_map(|(h, alg, i, len, apu, apv, pi, si, o)| Spec::Ckdf { h, alg, i, len, apu, apv, pi, si, o }),
        2 => (l(), l()).prop_map(|(kek, key)| Spec::Wrap { kek, key }),
        2 => (l(), key_pay(), tamper(), l()).prop_map(|(kek, p, t, o)| Spec::Unwrap { kek, p, t, o }),
        1 => (hs(), small(), small(), 1u32..40, l()).prop_map(|(h, pw, salt, n, o)| Spec::Pbkdf { h, pw, salt, n, o }),
        2 => any::<bool>().prop_flat_map(move |x| (Just(x), small(), small(), nonce(if x { 24 } else { 12 }), l()))
            .prop_map(|(x, ad, m, nonce, i)| Spec::Enc { x, ad, m, nonce, i }),
        2 => (any::<bool>(), small(), small(), 0u16..5000, tamper(), l())
            .prop_map(|(x, ad, m, s, t, i)| Spec::Dec { x, ad, m, s, t, i }),
        1 => (l(), l(), l()).prop_map(|(a, b, o)| Spec::Cat { a, b, o }),
        1 => (l(), key_pay()).prop_map(|(i, p)| Spec::Cmp { i, p }),
    ]
    .boxed()
}
/// The slow mnemonic procedures.
pub fn mn_spec(nv: u8, nr: u8) -> BoxedStrategy<Spec> {
    let l = move || loc(nv, nr);
    prop_oneof![
        (pass(), any::<bool>(), l()).prop_map(|(pass, jp, o)| Spec::MnGen { pass, jp, o }),
        (pass(), mnemonic(), l()).prop_map(|(pass, mn, o)| Spec::MnRec { pass, mn, o }),
    ]
    .boxed()
}

/// Histories of single procedures after some initial secrets; used by C08 and C09.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub init: Vec<(Loc, Pay)>,
    pub ops: Vec<Spec>,
}
pub fn hist(op: BoxedStrategy<Spec>, n: usize) -> BoxedStrategy<Hist> {
    (prop::collection::vec((loc(2, 3), key_pay()), 1..7), prop::collection::vec(op, 1..n))
        .prop_map(|(init, ops)| Hist { init, ops })
        .boxed()
}
pub fn run_hist(case: &Hist) -> vh::R<Out> {
    run_hist_with(case, Ok)
}
pub fn run_hist_with(case: &Hist, f: fn(StrongholdProcedure) -> vh::R<StrongholdProcedure>) -> vh::R<Out> {
    let hold = sh::Stronghold::default();
    let c = hold.create_client("a").unwrap();
    let mut m = Model::new();
    for (l, p) in &case.init {
        c.vault(vault_path(l.v)).write_secret(l.get(), p.bytes()).map_err(|e| vh::Failure::new("write", e.to_string()))?;
        m.insert(*l, Slot::Live(Val::Known(p.bytes())));
    }
    let mut tags = std::collections::BTreeSet::new();
    let mut good = 0;
    for (i, s) in case.ops.iter().enumerate() {
        let what = format!("op {i} {s:?}");
        let ok = step_with(&c, s, &mut m, &what, f)?;
        tags.insert(format!("{}:{}", s.name(), if ok { "ok" } else { "refused" }));
        good += ok as u32;
        check_model(&c, &m, &s.locs(), &what)?;
    }
    let all: Vec<Loc> = m.keys().copied().collect();
    check_model(&c, &m, &all, "at the end")?;
    let mut o = Out::new(good > 0);
    for t in tags {
        o = o.tag(t);
    }
    Ok(o)
}
