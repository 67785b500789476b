//! Finds sessions whose ciphertexts begin like clear messages (`pkstl-verif find-starts <log2> <bytes>`).
//!
//! Every user message begins with the magic value and all messages of a session share one
//! keystream, so a session whose keystream begins with zeros is one in which every ciphertext
//! begins with bytes of the magic value. One such session in 2^8, 2^16, 2^24, 2^32 has one, two, three, four of
//! them; random sessions do not get far. One private key is fixed, the other goes through an
//! arithmetic progression, so that the shared secrets follow by one differential addition each;
//! eight candidates are hashed at once. Build for a search with
//! `cargo build --release` and `RUSTFLAGS=-Ctarget-cpu=native`; the keys found once are in keypairs.rs.

use crate::refcrypto::{fe_add, fe_inv, fe_load, fe_mul, fe_store, fe_sub, sha256, x25519, x25519_base, Fe, SessionKey};

/// The fixed private key: its public key begins with 0xFF 0xFF and so is the salt (nearly) always.
pub fn fixed() -> [u8; 32] {
    sha256(&[&b"fixed"[..], &FIXED.to_be_bytes()].concat())
}
pub const FIXED: u32 = 34549;

/// Private key number i of a progression.
pub fn step(thread: u32, i: u64) -> [u8; 32] {
    let mut k = sha256(&[&b"progression"[..], &thread.to_be_bytes()].concat());
    k[0] &= 248;
    // far from a carry into the clamped bits
    k[31] = 0x40 | (k[31] & 0x1F);
    let mut carry = (i as u128) * 8;
    for b in k.iter_mut() {
        let v = *b as u128 + (carry & 0xFF);
        *b = v as u8;
        carry = (carry >> 8) + (v >> 8);
    }
    k
}

const K: [u64; 80] = include!("sha512_k.in");
const IV384: [u64; 8] = [
    0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511,
    0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4,
];
const L: usize = 8;
type V = [u64; L];

#[inline(always)]
fn map2(a: V, b: V, f: impl Fn(u64, u64) -> u64) -> V {
    let mut r = [0; L];
    for i in 0..L {
        r[i] = f(a[i], b[i]);
    }
    r
}
#[inline(always)]
fn add(a: V, b: V) -> V {
    map2(a, b, |x, y| x.wrapping_add(y))
}

#[inline(always)]
fn compress(h: &[V; 8], block: &[V; 16]) -> [V; 8] {
    let mut w = *block;
    let mut s = *h;
    for t in 0..80 {
        if t >= 16 {
            let i = t & 15;
            let mut n = [0; L];
            for l in 0..L {
                let a = w[(i + 1) & 15][l];
                let b = w[(i + 14) & 15][l];
                n[l] = w[i][l]
                    .wrapping_add(a.rotate_right(1) ^ a.rotate_right(8) ^ (a >> 7))
                    .wrapping_add(w[(i + 9) & 15][l])
                    .wrapping_add(b.rotate_right(19) ^ b.rotate_right(61) ^ (b >> 6));
            }
            w[i] = n;
        }
        let mut t1 = [0; L];
        let mut t2 = [0; L];
        for l in 0..L {
            let (a, b, c, e, f, g) = (s[0][l], s[1][l], s[2][l], s[4][l], s[5][l], s[6][l]);
            t1[l] = s[7][l]
                .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
                .wrapping_add((e & f) ^ (!e & g))
                .wrapping_add(K[t])
                .wrapping_add(w[t & 15][l]);
            t2[l] = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39)).wrapping_add((a & b) ^ (a & c) ^ (b & c));
        }
        s = [add(t1, t2), s[0], s[1], s[2], add(s[3], t1), s[4], s[5], s[6]];
    }
    let mut r = [[0; L]; 8];
    for i in 0..8 {
        r[i] = add(h[i], s[i]);
    }
    r
}

/// PBKDF2-HMAC-SHA384, 3 iterations, one block: the six words.
fn pbkdf2(passwords: &[[u8; 32]; L], salt: &[u8; 32]) -> [V; 6] {
    let iv: [V; 8] = IV384.map(|x| [x; L]);
    let word = |l: usize, i: usize| u64::from_be_bytes(passwords[l][8 * i..8 * i + 8].try_into().unwrap());
    let pad = |p: u64| {
        let mut b = [[p; L]; 16];
        for (i, w) in b.iter_mut().enumerate().take(4) {
            for (l, x) in w.iter_mut().enumerate() {
                *x ^= word(l, i);
            }
        }
        compress(&iv, &b)
    };
    let inner = pad(0x3636363636363636);
    let outer = pad(0x5c5c5c5c5c5c5c5c);
    let close = |words: &[V], bytes: usize, extra: Option<u64>| {
        let mut b = [[0; L]; 16];
        b[..words.len()].copy_from_slice(words);
        b[words.len()] = [extra.unwrap_or(0x8000000000000000); L];
        b[15] = [(128 + bytes as u64) * 8; L];
        b
    };
    let s: Vec<V> = (0..4).map(|i| [u64::from_be_bytes(salt[8 * i..8 * i + 8].try_into().unwrap()); L]).collect();
    let mut first = compress(&inner, &close(&s, 36, Some(0x0000_0001_8000_0000)));
    let mut t = [[0; L]; 6];
    for k in 0..3 {
        if k > 0 {
            first = compress(&inner, &close(&first[..6], 48, None));
        }
        first = compress(&outer, &close(&first[..6], 48, None));
        for i in 0..6 {
            t[i] = map2(t[i], first[i], |a, b| a ^ b);
        }
    }
    t
}

/// The first word of the keystream that encrypts messages.
fn keystream(key: &[u8; 48]) -> u32 {
    let w = |i: usize| u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = w(i);
    }
    s[12] = 1;
    for i in 0..3 {
        s[13 + i] = w(8 + i);
    }
    let z = s[0];
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(16);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(12);
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(8);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(7);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(1, 5, 9, 13);
        q(2, 6, 10, 14);
        q(3, 7, 11, 15);
        q(0, 5, 10, 15);
        q(1, 6, 11, 12);
        q(2, 7, 8, 13);
        q(3, 4, 9, 14);
    }
    s[0].wrapping_add(z)
}

fn check(thread: u32, i: u64) -> usize {
    let k = SessionKey::derive(&fixed(), &x25519_base(&step(thread, i)));
    k.seal(&[0; 8]).iter().take_while(|b| **b == 0).count()
}

fn search(thread: u32, n: u64, bytes: u32) {
    let base = x25519_base(&fixed());
    let mut eight = [0u8; 32];
    eight[0] = 8;
    // shared secrets as points X : Z; the difference of consecutive ones is 8 times the base
    let q = raw_mul(&eight, &base);
    let (qp, qm) = (fe_add(&q, &[1, 0, 0, 0, 0]), fe_sub(&q, &[1, 0, 0, 0, 0]));
    let mut prev: (Fe, Fe) = (fe_load(&x25519(&step(thread, 0), &base)), [1, 0, 0, 0, 0]);
    let mut cur: (Fe, Fe) = (fe_load(&x25519(&step(thread, 1), &base)), [1, 0, 0, 0, 0]);
    const B: usize = 256;
    let mut pts: Vec<(Fe, Fe)> = Vec::with_capacity(B);
    let mut i = 0u64;
    // with 0, the secrets and keys are looked at instead of the keystreams
    let mask = if bytes == 4 { u32::MAX } else { (1u32 << (8 * bytes)) - 1 };
    while i < n {
        pts.clear();
        for _ in 0..B {
            pts.push(prev);
            let a = fe_mul(&fe_sub(&cur.0, &cur.1), &qp);
            let b = fe_mul(&fe_add(&cur.0, &cur.1), &qm);
            let s = fe_add(&a, &b);
            let d = fe_sub(&a, &b);
            let next = (fe_mul(&prev.1, &fe_mul(&s, &s)), fe_mul(&prev.0, &fe_mul(&d, &d)));
            prev = cur;
            cur = next;
        }
        let mut acc = vec![[1u64, 0, 0, 0, 0]; B + 1];
        for k in 0..B {
            acc[k + 1] = fe_mul(&acc[k], &pts[k].1);
        }
        let mut inv = fe_inv(&acc[B]);
        let mut u = vec![[0u8; 32]; B];
        for k in (0..B).rev() {
            u[k] = fe_store(&fe_mul(&pts[k].0, &fe_mul(&inv, &acc[k])));
            inv = fe_mul(&inv, &pts[k].1);
        }
        for k in (0..B).step_by(L) {
            let p: &[[u8; 32]; L] = u[k..k + L].try_into().unwrap();
            let t = pbkdf2(p, &base);
            for l in 0..L {
                let mut key = [0u8; 48];
                for (w, x) in t.iter().enumerate() {
                    key[8 * w..8 * w + 8].copy_from_slice(&x[l].to_be_bytes());
                }
                let at = i + (k + l) as u64;
                if bytes == 0 {
                    let zeros = |b: &[u8]| b.iter().take_while(|x| **x == 0).count();
                    let back = |b: &[u8]| b.iter().rev().take_while(|x| **x == 0).count();
                    for (what, n) in [
                        ("secret-front", zeros(&p[l])),
                        ("secret-back", back(&p[l])),
                        ("key-front", zeros(&key[..32])),
                        ("key-back", back(&key[..32])),
                        ("nonce-front", zeros(&key[32..])),
                        ("nonce-back", back(&key)),
                    ] {
                        if n >= 2 {
                            println!("    (\"{}\", {}, {}, {}),", what, n, thread, at);
                        }
                    }
                } else if keystream(&key) & mask == 0 {
                    println!("    (\"start\", {}, {}, {}),", check(thread, at), thread, at);
                }
            }
        }
        i += B as u64;
    }
}

/// Not clamped.
fn raw_mul(k: &[u8; 32], u: &[u8; 32]) -> Fe {
    // 8 = three doublings
    assert!(k[0] == 8);
    let mut x = fe_load(u);
    let mut z: Fe = [1, 0, 0, 0, 0];
    for _ in 0..3 {
        let a = fe_add(&x, &z);
        let b = fe_sub(&x, &z);
        let (aa, bb) = (fe_mul(&a, &a), fe_mul(&b, &b));
        let e = fe_sub(&aa, &bb);
        x = fe_mul(&aa, &bb);
        z = fe_mul(&e, &fe_add(&aa, &fe_mul(&e, &[121_665, 0, 0, 0, 0])));
    }
    fe_mul(&x, &fe_inv(&z))
}

pub fn run(log2: u32, bytes: u32, threads: u32) {
    let pk = x25519_base(&fixed());
    println!("// fixed key {:02x?}", &pk[..4]);
    std::thread::scope(|s| {
        for t in 0..threads {
            s.spawn(move || search(t, (1u64 << log2) / threads as u64, bytes));
        }
    });
}

pub fn find_fixed() {
    for i in 0..10_000_000u32 {
        let k = sha256(&[&b"fixed"[..], &i.to_be_bytes()].concat());
        let p = x25519_base(&k);
        if p[0] == 0xFF && p[1] == 0xFF {
            println!("{}", i);
            return;
        }
    }
}
