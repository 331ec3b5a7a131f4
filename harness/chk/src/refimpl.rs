//! Independent reference implementations of the standards behind the procedures. Only block-level
//! primitives (SHA-2 compression, AES block, curve arithmetic) come from other crates.
use aes::cipher::{BlockDecrypt, BlockEncrypt, KeyInit};
use curve25519_dalek::{constants::ED25519_BASEPOINT_TABLE, montgomery::MontgomeryPoint, scalar::Scalar};
use sha2::{Digest, Sha256, Sha384, Sha512};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    S256,
    S384,
    S512,
}
impl H {
    pub fn len(self) -> usize {
        match self {
            H::S256 => 32,
            H::S384 => 48,
            H::S512 => 64,
        }
    }
    pub fn is_empty(self) -> bool {
        false
    }
    pub fn block(self) -> usize {
        match self {
            H::S256 => 64,
            _ => 128,
        }
    }
    pub fn hash(self, parts: &[&[u8]]) -> Vec<u8> {
        macro_rules! go {
            ($t:ty) => {{
                let mut d = <$t>::new();
                for p in parts {
                    d.update(p);
                }
                d.finalize().to_vec()
            }};
        }
        match self {
            H::S256 => go!(Sha256),
            H::S384 => go!(Sha384),
            H::S512 => go!(Sha512),
        }
    }
    pub fn hmac(self, key: &[u8], msg: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > self.block() { self.hash(&[key]) } else { key.to_vec() };
        k.resize(self.block(), 0);
        let ip: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        let op: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        let inner = self.hash(&[&ip, msg]);
        self.hash(&[&op, &inner])
    }
    /// HKDF with one output block, as the procedure defines it (RFC 5869, L = hash length).
    pub fn hkdf(self, salt: &[u8], ikm: &[u8], info: &[u8]) -> Vec<u8> {
        let prk = self.hmac(salt, ikm);
        let mut m = info.to_vec();
        m.push(1);
        self.hmac(&prk, &m)
    }
    pub fn pbkdf2(self, pw: &[u8], salt: &[u8], count: u32, len: usize) -> Vec<u8> {
        let mut out = vec![];
        let mut i = 1u32;
        while out.len() < len {
            let mut s = salt.to_vec();
            s.extend_from_slice(&i.to_be_bytes());
            let mut u = self.hmac(pw, &s);
            let mut t = u.clone();
            for _ in 1..count {
                u = self.hmac(pw, &u);
                for (a, b) in t.iter_mut().zip(&u) {
                    *a ^= b;
                }
            }
            out.extend(t);
            i += 1;
        }
        out.truncate(len);
        out
    }
    #[allow(clippy::too_many_arguments)]
    pub fn concat_kdf(self, z: &[u8], len: usize, alg: &[u8], apu: &[u8], apv: &[u8], pubi: &[u8], privi: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        let mut c = 1u32;
        while out.len() < len {
            out.extend(self.hash(&[
                &c.to_be_bytes(),
                z,
                &(alg.len() as u32).to_be_bytes(),
                alg,
                &(apu.len() as u32).to_be_bytes(),
                apu,
                &(apv.len() as u32).to_be_bytes(),
                apv,
                pubi,
                privi,
            ]));
            c += 1;
        }
        out.truncate(len);
        out
    }
}

pub fn aes_kw_wrap(kek: &[u8], p: &[u8]) -> Option<Vec<u8>> {
    if kek.len() != 32 || p.len() % 8 != 0 {
        return None;
    }
    let c = aes::Aes256::new_from_slice(kek).unwrap();
    let n = p.len() / 8;
    let mut a = [0xa6u8; 8];
    let mut r: Vec<[u8; 8]> = p.chunks(8).map(|x| x.try_into().unwrap()).collect();
    for j in 0..6usize {
        for i in 1..=n {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&a);
            b[8..].copy_from_slice(&r[i - 1]);
            let mut blk = b.into();
            c.encrypt_block(&mut blk);
            let t = (n * j + i) as u64;
            a = (u64::from_be_bytes(blk[..8].try_into().unwrap()) ^ t).to_be_bytes();
            r[i - 1] = blk[8..].try_into().unwrap();
        }
    }
    let mut out = a.to_vec();
    for x in r {
        out.extend(x);
    }
    Some(out)
}

pub fn aes_kw_unwrap(kek: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if kek.len() != 32 || ct.len() % 8 != 0 || ct.len() < 8 {
        return None;
    }
    let c = aes::Aes256::new_from_slice(kek).unwrap();
    let n = ct.len() / 8 - 1;
    let mut a: [u8; 8] = ct[..8].try_into().unwrap();
    let mut r: Vec<[u8; 8]> = ct[8..].chunks(8).map(|x| x.try_into().unwrap()).collect();
    for j in (0..6usize).rev() {
        for i in (1..=n).rev() {
            let t = (n * j + i) as u64;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(u64::from_be_bytes(a) ^ t).to_be_bytes());
            b[8..].copy_from_slice(&r[i - 1]);
            let mut blk = b.into();
            c.decrypt_block(&mut blk);
            a = blk[..8].try_into().unwrap();
            r[i - 1] = blk[8..].try_into().unwrap();
        }
    }
    if a != [0xa6; 8] {
        return None;
    }
    Some(r.concat())
}

// --- AES-256-GCM ---------------------------------------------------------------------------------

fn gmul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
fn be128(b: &[u8]) -> u128 {
    let mut a = [0u8; 16];
    a[..b.len()].copy_from_slice(b);
    u128::from_be_bytes(a)
}
/// Returns (ciphertext, tag).
pub fn gcm_seal(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = aes::Aes256::new_from_slice(key).unwrap();
    let enc = |x: u128| {
        let mut b = x.to_be_bytes().into();
        c.encrypt_block(&mut b);
        u128::from_be_bytes(b.into())
    };
    let h = enc(0);
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    let j0 = u128::from_be_bytes(j0);
    let mut ctr = j0;
    let mut ct = vec![];
    for chunk in pt.chunks(16) {
        ctr = (ctr & !0xffff_ffffu128) | ((ctr as u32).wrapping_add(1) as u128);
        let ks = enc(ctr).to_be_bytes();
        ct.extend(chunk.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    let mut s = 0u128;
    for x in [ad, &ct[..]] {
        for chunk in x.chunks(16) {
            s = gmul(s ^ be128(chunk), h);
        }
    }
    s = gmul(s ^ (((ad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8)), h);
    let tag = (s ^ enc(j0)).to_be_bytes().to_vec();
    (ct, tag)
}

// --- XChaCha20-Poly1305 ----------------------------------------------------------------------------

fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        quarter(s, 0, 4, 8, 12);
        quarter(s, 1, 5, 9, 13);
        quarter(s, 2, 6, 10, 14);
        quarter(s, 3, 7, 11, 15);
        quarter(s, 0, 5, 10, 15);
        quarter(s, 1, 6, 11, 12);
        quarter(s, 2, 7, 8, 13);
        quarter(s, 3, 4, 9, 14);
    }
}
fn init(key: &[u8], tail: [u32; 4]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12..].copy_from_slice(&tail);
    s
}
fn le32(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap())
}
fn chacha_block(key: &[u8], ctr: u32, n: [u32; 3]) -> Vec<u8> {
    let s0 = init(key, [ctr, n[0], n[1], n[2]]);
    let mut s = s0;
    rounds(&mut s);
    (0..16).flat_map(|i| s[i].wrapping_add(s0[i]).to_le_bytes()).collect()
}
fn hchacha(key: &[u8], n16: &[u8]) -> Vec<u8> {
    let mut s = init(key, [le32(n16, 0), le32(n16, 1), le32(n16, 2), le32(n16, 3)]);
    rounds(&mut s);
    [0, 1, 2, 3, 12, 13, 14, 15].iter().flat_map(|&i: &usize| s[i].to_le_bytes()).collect()
}
/// Poly1305 over 130-bit numbers held as five 26-bit limbs in u64 (simple, not constant time).
fn poly1305(key: &[u8], msg: &[u8]) -> Vec<u8> {
    let limbs = |x: u128, hi: u64| -> [u64; 5] {
        let m = (1u128 << 26) - 1;
        [(x & m) as u64, (x >> 26 & m) as u64, (x >> 52 & m) as u64, (x >> 78 & m) as u64, (x >> 104) as u64 | hi << 24]
    };
    let r = u128::from_le_bytes(key[..16].try_into().unwrap()) & 0x0ffffffc0ffffffc0ffffffc0fffffff;
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    let r = limbs(r, 0);
    let mut acc = [0u64; 5];
    for chunk in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..chunk.len()].copy_from_slice(chunk);
        b[chunk.len()] = 1;
        let n = limbs(u128::from_le_bytes(b[..16].try_into().unwrap()), b[16] as u64);
        let mut p = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let prod = (acc[i] + n[i]) as u128 * r[j] as u128;
                if i + j < 5 {
                    p[i + j] += prod;
                } else {
                    p[i + j - 5] += 5 * prod;
                }
            }
        }
        for _ in 0..3 {
            let mut c = 0u128;
            for x in p.iter_mut() {
                *x += c;
                c = *x >> 26;
                *x &= (1 << 26) - 1;
            }
            p[0] += 5 * c;
        }
        for i in 0..5 {
            acc[i] = p[i] as u64;
        }
    }
    // full reduction
    for _ in 0..3 {
        let mut c = 0u64;
        for x in acc.iter_mut() {
            *x += c;
            c = *x >> 26;
            *x &= (1 << 26) - 1;
        }
        acc[0] += 5 * c;
    }
    let p = [(1u64 << 26) - 5, (1 << 26) - 1, (1 << 26) - 1, (1 << 26) - 1, (1 << 26) - 1];
    if (0..5).rev().find_map(|i| if acc[i] != p[i] { Some(acc[i] > p[i]) } else { None }).unwrap_or(true) {
        let mut borrow = 0i64;
        for i in 0..5 {
            let mut d = acc[i] as i64 - p[i] as i64 - borrow;
            borrow = 0;
            if d < 0 {
                d += 1 << 26;
                borrow = 1;
            }
            acc[i] = d as u64;
        }
    }
    let v = acc[0] as u128 | (acc[1] as u128) << 26 | (acc[2] as u128) << 52 | (acc[3] as u128) << 78 | (acc[4] as u128) << 104;
    v.wrapping_add(s).to_le_bytes().to_vec()
}
/// Returns (ciphertext, tag).
pub fn xchacha_seal(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let sub = hchacha(key, &nonce[..16]);
    let n = [0, le32(&nonce[16..], 0), le32(&nonce[16..], 1)];
    let otk = chacha_block(&sub, 0, n);
    let mut ct = vec![];
    for (i, chunk) in pt.chunks(64).enumerate() {
        let ks = chacha_block(&sub, 1 + i as u32, n);
        ct.extend(chunk.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    let mut m = ad.to_vec();
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(&ct);
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    (ct, poly1305(&otk[..32], &m))
}
pub fn xchacha_open(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    // the stream is its own inverse; the tag is over the ciphertext
    let (pt, _) = xchacha_seal(key, nonce, ad, ct);
    let (_, t) = xchacha_seal(key, nonce, ad, &pt);
    (t == tag).then_some(pt)
}
pub fn gcm_open(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let (pt, _) = gcm_seal(key, nonce, ad, ct);
    let (_, t) = gcm_seal(key, nonce, ad, &pt);
    (t == tag).then_some(pt)
}

// --- curves ------------------------------------------------------------------------------------------

fn clamp(mut b: [u8; 32]) -> [u8; 32] {
    b[0] &= 248;
    b[31] &= 127;
    b[31] |= 64;
    b
}
fn ed_expand(sk: &[u8]) -> (Scalar, Vec<u8>) {
    let h = H::S512.hash(&[&sk[..32]]);
    let a = Scalar::from_bits(clamp(h[..32].try_into().unwrap()));
    (a, h[32..].to_vec())
}
pub fn ed25519_pk(sk: &[u8]) -> [u8; 32] {
    let (a, _) = ed_expand(sk);
    (&a * &ED25519_BASEPOINT_TABLE).compress().to_bytes()
}
pub fn ed25519_sign(sk: &[u8], msg: &[u8]) -> [u8; 64] {
    let (a, prefix) = ed_expand(sk);
    let pk = ed25519_pk(sk);
    let wide = |v: Vec<u8>| Scalar::from_bytes_mod_order_wide(&v.try_into().unwrap());
    let r = wide(H::S512.hash(&[&prefix, msg]));
    let rr = (&r * &ED25519_BASEPOINT_TABLE).compress().to_bytes();
    let k = wide(H::S512.hash(&[&rr, &pk, msg]));
    // the clamped scalar is not reduced; reduce before the ring operations
    let a = Scalar::from_bytes_mod_order(a.to_bytes());
    let s = k * a + r;
    let mut out = [0; 64];
    out[..32].copy_from_slice(&rr);
    out[32..].copy_from_slice(&s.to_bytes());
    out
}
pub fn x25519(sk: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let s = Scalar::from_bits(clamp(*sk));
    (s * MontgomeryPoint(*u)).to_bytes()
}
pub fn x25519_pk(sk: &[u8; 32]) -> [u8; 32] {
    let mut nine = [0; 32];
    nine[0] = 9;
    x25519(sk, &nine)
}

// --- SLIP-10 / BIP39 -----------------------------------------------------------------------------------

/// (key || chain code), or None when a non-hardened segment is used (not defined for Ed25519).
pub fn slip10_child(parent: &[u8], chain: &[u32]) -> Option<Vec<u8>> {
    let mut k = parent.to_vec();
    for i in chain {
        if *i < 1 << 31 {
            return None;
        }
        let mut d = vec![0];
        d.extend_from_slice(&k[..32]);
        d.extend_from_slice(&i.to_be_bytes());
        k = H::S512.hmac(&k[32..], &d);
    }
    Some(k)
}
pub fn slip10_master(seed: &[u8]) -> Vec<u8> {
    H::S512.hmac(b"ed25519 seed", seed)
}
pub fn bip39_seed(mnemonic: &str, pass: &str) -> Vec<u8> {
    use unicode_normalization::UnicodeNormalization;
    let m: String = mnemonic.nfkd().collect();
    let s: String = format!("mnemonic{pass}").nfkd().collect();
    H::S512.pbkdf2(m.as_bytes(), s.as_bytes(), 2048, 64)
}

/// Published vectors; called once by the checks that use this module.
pub fn selftest() -> Result<(), String> {
    let hx = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let eq = |n: &str, a: &[u8], b: &str| if a == hx(b) { Ok(()) } else { Err(format!("reference self-test {n}: {}", crate::hex(a))) };
    eq("hmac256", &H::S256.hmac(&[0x0b; 20], b"Hi There"), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7")?;
    eq("aeskw", &aes_kw_wrap(&hx("000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F"), &hx("00112233445566778899AABBCCDDEEFF000102030405060708090A0B0C0D0E0F")).unwrap(),
        "28C9F404C4B810F4CBCCB35CFB87F8263F5786E2D80ED326CBC7F0E71A99F43BFB988B9B7A02DD21")?;
    let (c, t) = gcm_seal(&[0; 32], &[0; 12], &[], &[0; 16]);
    eq("gcm ct", &c, "cea7403d4d606b6e074ec5d3baf39d18")?;
    eq("gcm tag", &t, "d0d1c8a799996bf0265b98b5d48ab919")?;
    let key = hx("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f");
    let nonce = hx("404142434445464748494a4b4c4d4e4f5051525354555657");
    let ad = hx("50515253c0c1c2c3c4c5c6c7");
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let (c, t) = xchacha_seal(&key, &nonce, &ad, pt);
    eq("xchacha ct", &c[..16], "bd6d179d3e83d43b9576579493c0e939")?;
    eq("xchacha tag", &t, "c0875924c1c7987947deafd8780acf49")?;
    eq("ed pk", &ed25519_pk(&hx("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60")), "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a")?;
    eq("ed sig", &ed25519_sign(&hx("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"), b""),
        "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b")?;
    eq("x25519", &x25519(&hx("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4").try_into().unwrap(),
        &hx("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c").try_into().unwrap()),
        "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")?;
    eq("slip10", &slip10_master(&hx("000102030405060708090a0b0c0d0e0f")),
        "2b4be7f19ee27bbf30c667b642d5f4aa69fd169872f8fc3059c08ebae2eb19e790046a93de5380a72b5e45010748567d5ea02bbf6522f979e05c0d8d8ca9fffb")?;
    eq("slip10 child", &slip10_child(&slip10_master(&hx("000102030405060708090a0b0c0d0e0f")), &[1 << 31]).unwrap(),
        "68e0fe46dfb67e368c75379acec591dad19df3cde26e63b93a8e704f1dade7a38b59aa11380b624e81507a27fedda59fea6d0b779a778918a2fd3590e16e9c69")?;
    eq("blake2b", &blake2b(64, b"abc"),
        "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923")?;
    eq("argon2i", &argon2i(b"password", b"somesalt", 2, 256), "89e9029f4637b295beb027056a7336c414fadd43f6b208645281cb214a56452f")?;
    Ok(())
}

/// BLAKE2b without key (RFC 7693)
pub fn blake2b(out: usize, msg: &[u8]) -> Vec<u8> {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b,
        0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x01010000 ^ out as u64;
    let n = msg.len().div_ceil(128).max(1);
    for b in 0..n {
        let mut block = [0u8; 128];
        let part = &msg[b * 128..msg.len().min(b * 128 + 128)];
        block[..part.len()].copy_from_slice(part);
        let m: Vec<u64> = block.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= (b * 128 + part.len()) as u64;
        if b + 1 == n {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).take(out).collect()
}

/// Argon2i version 1.3, one lane, 32 bytes of output, `mem` KiB (RFC 9106)
pub fn argon2i(pass: &[u8], salt: &[u8], passes: u32, mem: u32) -> Vec<u8> {
    fn long(out: usize, a: &[u8]) -> Vec<u8> {
        let mut first = (out as u32).to_le_bytes().to_vec();
        first.extend(a);
        if out <= 64 {
            return blake2b(out, &first);
        }
        let r = out.div_ceil(32) - 2;
        let mut v = blake2b(64, &first);
        let mut res = v[..32].to_vec();
        for _ in 1..r {
            v = blake2b(64, &v);
            res.extend(&v[..32]);
        }
        res.extend(blake2b(out - 32 * r, &v));
        res
    }
    type B = [u64; 128];
    fn perm(b: &mut B, at: [usize; 16]) {
        let f = |x: u64, y: u64| x.wrapping_add(y).wrapping_add(((x & 0xffff_ffff) * (y & 0xffff_ffff)).wrapping_mul(2));
        let mut g = |a: usize, bb: usize, c: usize, d: usize| {
            let (a, bb, c, d) = (at[a], at[bb], at[c], at[d]);
            b[a] = f(b[a], b[bb]);
            b[d] = (b[d] ^ b[a]).rotate_right(32);
            b[c] = f(b[c], b[d]);
            b[bb] = (b[bb] ^ b[c]).rotate_right(24);
            b[a] = f(b[a], b[bb]);
            b[d] = (b[d] ^ b[a]).rotate_right(16);
            b[c] = f(b[c], b[d]);
            b[bb] = (b[bb] ^ b[c]).rotate_right(63);
        };
        g(0, 4, 8, 12);
        g(1, 5, 9, 13);
        g(2, 6, 10, 14);
        g(3, 7, 11, 15);
        g(0, 5, 10, 15);
        g(1, 6, 11, 12);
        g(2, 7, 8, 13);
        g(3, 4, 9, 14);
    }
    fn compress(x: &B, y: &B) -> B {
        let mut r = *x;
        r.iter_mut().zip(y).for_each(|(a, b)| *a ^= b);
        let mut z = r;
        for row in 0..8 {
            perm(&mut z, std::array::from_fn(|i| 16 * row + i));
        }
        for col in 0..8 {
            perm(&mut z, std::array::from_fn(|i| 2 * col + 16 * (i / 2) + i % 2));
        }
        z.iter_mut().zip(r).for_each(|(a, b)| *a ^= b);
        z
    }
    let block = |v: Vec<u8>| -> B { std::array::from_fn(|i| u64::from_le_bytes(v[8 * i..8 * i + 8].try_into().unwrap())) };
    let mut h = vec![];
    for n in [1, 32, mem, passes, 0x13, 1] {
        h.extend(n.to_le_bytes());
    }
    for s in [pass, salt, &[], &[]] {
        h.extend((s.len() as u32).to_le_bytes());
        h.extend(s);
    }
    let h0 = blake2b(64, &h);
    let q = (mem / 4 * 4) as usize;
    let seg = q / 4;
    let mut m = vec![[0u64; 128]; q];
    for i in 0..2u32 {
        let mut a = h0.clone();
        a.extend(i.to_le_bytes());
        a.extend([0; 4]);
        m[i as usize] = block(long(1024, &a));
    }
    for pass in 0..passes as usize {
        for slice in 0..4 {
            let mut addr = [0u64; 128];
            for idx in 0..seg {
                if idx % 128 == 0 {
                    let mut z = [0u64; 128];
                    z[..7].copy_from_slice(&[pass as u64, 0, slice as u64, q as u64, passes as u64, 1, idx as u64 / 128 + 1]);
                    addr = compress(&[0; 128], &compress(&[0; 128], &z));
                }
                if pass == 0 && slice == 0 && idx < 2 {
                    continue;
                }
                let j1 = addr[idx % 128] & 0xffff_ffff;
                let w = if pass == 0 { slice * seg + idx - 1 } else { q - seg + idx - 1 } as u64;
                let zz = w - 1 - (w * (j1 * j1 >> 32) >> 32);
                let start = if pass == 0 { 0 } else { (slice + 1) % 4 * seg };
                let r = (start + zz as usize) % q;
                let cur = slice * seg + idx;
                let prev = (cur + q - 1) % q;
                let mut b = compress(&m[prev], &m[r]);
                if pass > 0 {
                    b.iter_mut().zip(m[cur]).for_each(|(a, o)| *a ^= o);
                }
                m[cur] = b;
            }
        }
    }
    long(32, &m[q - 1].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>())
}

/// An LZ4 block decoder written from the block format description. Lenient where the format leaves the
/// end of a block to the encoder: a block may be empty and may end after a match.
pub fn lz4_decode(b: &[u8]) -> Option<Vec<u8>> {
    fn ext(b: &[u8], p: &mut usize, n: usize) -> Option<usize> {
        let mut n = n;
        if n == 15 {
            loop {
                let x = *b.get(*p)?;
                *p += 1;
                n += x as usize;
                if x != 255 {
                    break;
                }
            }
        }
        Some(n)
    }
    let (mut p, mut out) = (0, vec![]);
    while p < b.len() {
        let t = b[p];
        p += 1;
        let lit = ext(b, &mut p, (t >> 4) as usize)?;
        out.extend_from_slice(b.get(p..p.checked_add(lit)?)?);
        p += lit;
        if p == b.len() {
            break;
        }
        let off = u16::from_le_bytes([*b.get(p)?, *b.get(p + 1)?]) as usize;
        p += 2;
        let n = ext(b, &mut p, (t & 15) as usize)? + 4;
        if off == 0 || off > out.len() {
            return None;
        }
        for _ in 0..n {
            out.push(out[out.len() - off]);
        }
    }
    Some(out)
}

/// RFC 4648 base64 with the URL-safe alphabet and padding.
pub fn b64_encode(d: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let bits: Vec<u8> = d.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    let mut s: String = bits
        .chunks(6)
        .map(|c| A[(0..6).fold(0usize, |a, i| a << 1 | *c.get(i).unwrap_or(&0) as usize)] as char)
        .collect();
    while s.len() % 4 != 0 {
        s.push('=');
    }
    s
}
/// The bytes that a text stands for; unused trailing bits are not looked at.
pub fn b64_decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let n = s.iter().position(|c| *c == b'=').unwrap_or(s.len());
    if s.len() - n > 2 || s[n..].iter().any(|c| *c != b'=') {
        return None;
    }
    let mut bits = vec![];
    for c in &s[..n] {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        };
        bits.extend((0..6).rev().map(|i| v >> i & 1));
    }
    Some(bits.chunks_exact(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect())
}
