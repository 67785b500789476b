//! Independent implementations of the cryptography the wire format names.
//!
//! X25519 is written out here (RFC 7748). PBKDF2 is written over ring's HMAC; ChaCha20-Poly1305
//! is ring's (pkstl uses another crate for it); Ed25519 and SHA-256 are ring's.

use ring::aead::{Aad, LessSafeKey, Nonce, UnboundKey, CHACHA20_POLY1305};
use ring::signature::{Ed25519KeyPair, KeyPair, UnparsedPublicKey, ED25519};

const MASK: u64 = (1 << 51) - 1;
pub type Fe = [u64; 5];

pub fn fe_load(b: &[u8; 32]) -> Fe {
    let l = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    [
        l(0) & MASK,
        (l(6) >> 3) & MASK,
        (l(12) >> 6) & MASK,
        (l(19) >> 1) & MASK,
        (l(24) >> 12) & MASK,
    ]
}

pub fn fe_add(a: &Fe, b: &Fe) -> Fe {
    let mut r = [0; 5];
    for i in 0..5 {
        r[i] = a[i] + b[i];
    }
    carry(r)
}

pub fn fe_sub(a: &Fe, b: &Fe) -> Fe {
    // add 4p before subtracting, so that no limb goes below zero
    const P4: Fe = [
        0x1F_FFFF_FFFF_FFB4,
        0x1F_FFFF_FFFF_FFFC,
        0x1F_FFFF_FFFF_FFFC,
        0x1F_FFFF_FFFF_FFFC,
        0x1F_FFFF_FFFF_FFFC,
    ];
    let mut r = [0; 5];
    for i in 0..5 {
        r[i] = a[i] + P4[i] - b[i];
    }
    carry(r)
}

fn carry(mut r: Fe) -> Fe {
    for _ in 0..2 {
        for i in 0..4 {
            r[i + 1] += r[i] >> 51;
            r[i] &= MASK;
        }
        let c = r[4] >> 51;
        r[4] &= MASK;
        r[0] += 19 * c;
    }
    r
}

pub fn fe_mul(a: &Fe, b: &Fe) -> Fe {
    let m = |x: u64, y: u64| x as u128 * y as u128;
    let b19 = [0, b[1] * 19, b[2] * 19, b[3] * 19, b[4] * 19];
    let r = [
        m(a[0], b[0]) + m(a[1], b19[4]) + m(a[2], b19[3]) + m(a[3], b19[2]) + m(a[4], b19[1]),
        m(a[0], b[1]) + m(a[1], b[0]) + m(a[2], b19[4]) + m(a[3], b19[3]) + m(a[4], b19[2]),
        m(a[0], b[2]) + m(a[1], b[1]) + m(a[2], b[0]) + m(a[3], b19[4]) + m(a[4], b19[3]),
        m(a[0], b[3]) + m(a[1], b[2]) + m(a[2], b[1]) + m(a[3], b[0]) + m(a[4], b19[4]),
        m(a[0], b[4]) + m(a[1], b[3]) + m(a[2], b[2]) + m(a[3], b[1]) + m(a[4], b[0]),
    ];
    let mut o = [0u64; 5];
    let mut c: u128 = 0;
    for i in 0..5 {
        let v = r[i] + c;
        o[i] = v as u64 & MASK;
        c = v >> 51;
    }
    // c < 2^64, 19 * c < 2^69: spread it over two limbs
    let v = o[0] as u128 + c * 19;
    o[0] = v as u64 & MASK;
    o[1] += (v >> 51) as u64;
    carry(o)
}

pub fn fe_small(a: &Fe, k: u64) -> Fe {
    fe_mul(a, &[k, 0, 0, 0, 0])
}

pub fn fe_inv(a: &Fe) -> Fe {
    // a^(p-2), p-2 = 2^255 - 21
    let mut r: Fe = [1, 0, 0, 0, 0];
    for i in (0..255).rev() {
        r = fe_mul(&r, &r);
        // bits of 2^255 - 21: all ones except bits 2 and 4
        if i != 2 && i != 4 {
            r = fe_mul(&r, a);
        }
    }
    r
}

pub fn fe_store(a: &Fe) -> [u8; 32] {
    let mut r = carry(*a);
    // subtract p while the value is >= p
    for _ in 0..2 {
        let mut t = r;
        t[0] += 19;
        for i in 0..4 {
            t[i + 1] += t[i] >> 51;
            t[i] &= MASK;
        }
        if t[4] >> 51 != 0 {
            t[4] &= MASK;
            r = t;
        }
    }
    let mut out = [0u8; 32];
    let mut acc: u128 = 0;
    let mut bits = 0;
    let mut pos = 0;
    for limb in r {
        acc |= (limb as u128) << bits;
        bits += 51;
        while bits >= 8 {
            out[pos] = acc as u8;
            pos += 1;
            acc >>= 8;
            bits -= 8;
        }
    }
    if pos < 32 {
        out[pos] = acc as u8;
    }
    out
}

/// X25519 (RFC 7748).
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let x1 = fe_load(u);
    let (mut x2, mut z2): (Fe, Fe) = ([1, 0, 0, 0, 0], [0; 5]);
    let (mut x3, mut z3): (Fe, Fe) = (x1, [1, 0, 0, 0, 0]);
    let mut swap = 0;
    for t in (0..255).rev() {
        let kt = (k[t / 8] >> (t % 8)) & 1;
        if swap ^ kt == 1 {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = fe_add(&x2, &z2);
        let aa = fe_mul(&a, &a);
        let b = fe_sub(&x2, &z2);
        let bb = fe_mul(&b, &b);
        let e = fe_sub(&aa, &bb);
        let c = fe_add(&x3, &z3);
        let d = fe_sub(&x3, &z3);
        let da = fe_mul(&d, &a);
        let cb = fe_mul(&c, &b);
        let s = fe_add(&da, &cb);
        x3 = fe_mul(&s, &s);
        let m = fe_sub(&da, &cb);
        z3 = fe_mul(&x1, &fe_mul(&m, &m));
        x2 = fe_mul(&aa, &bb);
        z2 = fe_mul(&e, &fe_add(&aa, &fe_small(&e, 121_665)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    fe_store(&fe_mul(&x2, &fe_inv(&z2)))
}

pub fn x25519_base(k: &[u8; 32]) -> [u8; 32] {
    let mut u = [0; 32];
    u[0] = 9;
    x25519(k, &u)
}

pub fn sha256(d: &[u8]) -> [u8; 32] {
    ring::digest::digest(&ring::digest::SHA256, d).as_ref().try_into().unwrap()
}

/// The 48 bytes PBKDF2-HMAC-SHA384 yields after 3 iterations (one block).
pub fn pbkdf2_sha384_3(password: &[u8], salt: &[u8]) -> [u8; 48] {
    let key = ring::hmac::Key::new(ring::hmac::HMAC_SHA384, password);
    let mut msg = salt.to_vec();
    msg.extend_from_slice(&1u32.to_be_bytes());
    let mut u: [u8; 48] = ring::hmac::sign(&key, &msg).as_ref().try_into().unwrap();
    let mut t = u;
    for _ in 1..3 {
        u = ring::hmac::sign(&key, &u).as_ref().try_into().unwrap();
        for i in 0..48 {
            t[i] ^= u[i];
        }
    }
    t
}

/// Symmetric key material of a session.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SessionKey(pub [u8; 48]);

impl SessionKey {
    /// From one's own ephemeral private key and the peer's ephemeral public key.
    pub fn derive(own_sk: &[u8; 32], peer_pk: &[u8; 32]) -> SessionKey {
        let own_pk = x25519_base(own_sk);
        let shared = x25519(own_sk, peer_pk);
        let salt = if own_pk > *peer_pk { &own_pk } else { peer_pk };
        SessionKey(pbkdf2_sha384_3(&shared, salt))
    }
    fn key(&self) -> LessSafeKey {
        LessSafeKey::new(UnboundKey::new(&CHACHA20_POLY1305, &self.0[..32]).unwrap())
    }
    fn nonce(&self) -> Nonce {
        Nonce::try_assume_unique_for_key(&self.0[32..44]).unwrap()
    }
    pub fn seal(&self, plain: &[u8]) -> Vec<u8> {
        let mut v = plain.to_vec();
        self.key()
            .seal_in_place_append_tag(self.nonce(), Aad::from(&self.0[44..48]), &mut v)
            .unwrap();
        v
    }
    pub fn open(&self, cipher: &[u8]) -> Option<Vec<u8>> {
        let mut v = cipher.to_vec();
        let n = self
            .key()
            .open_in_place(self.nonce(), Aad::from(&self.0[44..48]), &mut v)
            .ok()?
            .len();
        v.truncate(n);
        Some(v)
    }
}

/// An Ed25519 identity.
pub struct Identity {
    pub seed: [u8; 32],
    pub kp: Ed25519KeyPair,
}

impl Identity {
    pub fn new(seed: [u8; 32]) -> Identity {
        Identity { seed, kp: Ed25519KeyPair::from_seed_unchecked(&seed).unwrap() }
    }
    pub fn of(n: u64) -> Identity {
        Identity::new(sha256(&[&b"identity"[..], &n.to_be_bytes()].concat()))
    }
    pub fn pk(&self) -> [u8; 32] {
        self.kp.public_key().as_ref().try_into().unwrap()
    }
    pub fn sign(&self, m: &[u8]) -> [u8; 64] {
        self.kp.sign(m).as_ref().try_into().unwrap()
    }
}

pub fn verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    UnparsedPublicKey::new(&ED25519, pk).verify(msg, sig).is_ok()
}

fn hex(s: &str) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..32 {
        r[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    r
}

/// Checks this file against RFC 7748 and ring, so that a wrong oracle is noticed as such.
pub fn self_test() -> Result<(), String> {
    let k = hex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4");
    let u = hex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c");
    let r = hex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552");
    if x25519(&k, &u) != r {
        return Err("x25519 vector 1".into());
    }
    let k = hex("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d");
    let u = hex("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493");
    let r = hex("95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957");
    if x25519(&k, &u) != r {
        return Err("x25519 vector 2".into());
    }
    // against ring, through the entropy override
    for i in 0..40u64 {
        let sk: [u8; 32] = sha256(&i.to_be_bytes());
        let other: [u8; 32] = sha256(&(i + 1000).to_be_bytes());
        crate::entropy::set(i);
        crate::entropy::push_fixed(&sk);
        let rng = ring::rand::SystemRandom::new();
        let esk =
            ring::agreement::EphemeralPrivateKey::generate(&ring::agreement::X25519, &rng).unwrap();
        crate::entropy::off();
        if esk.compute_public_key().unwrap().as_ref() != x25519_base(&sk) {
            return Err("x25519 public key differs from ring".into());
        }
        let other_pk = x25519_base(&other);
        let shared: Result<Vec<u8>, ()> = ring::agreement::agree_ephemeral(
            esk,
            &ring::agreement::UnparsedPublicKey::new(&ring::agreement::X25519, &other_pk),
            (),
            |m| Ok(m.to_vec()),
        );
        if shared.unwrap() != x25519(&sk, &other_pk) {
            return Err("x25519 agreement differs from ring".into());
        }
        let mut out = [0u8; 48];
        ring::pbkdf2::derive(
            ring::pbkdf2::PBKDF2_HMAC_SHA384,
            std::num::NonZeroU32::new(3).unwrap(),
            &other,
            &sk,
            &mut out,
        );
        if out != pbkdf2_sha384_3(&sk, &other) {
            return Err("pbkdf2 differs from ring".into());
        }
    }
    Ok(())
}
