//! Finds pairs of X25519 private keys whose public keys share a long prefix or suffix
//! (`pkstl-verif find-keys <log2>`); the pairs found once are kept in keypairs.rs.

use crate::refcrypto::sha256;

pub fn sk(i: u32) -> [u8; 32] {
    sha256(&[&b"pair"[..], &i.to_be_bytes()].concat())
}

fn public(i: u32) -> [u8; 32] {
    crate::entropy::set(0);
    crate::entropy::push_fixed(&sk(i));
    let k = ring::agreement::EphemeralPrivateKey::generate(
        &ring::agreement::X25519,
        &ring::rand::SystemRandom::new(),
    )
    .unwrap();
    k.compute_public_key().unwrap().as_ref().try_into().unwrap()
}

pub fn run(log2: u32) {
    let n = 1u32 << log2;
    let per = n / 8;
    let mut all: Vec<(u64, u64, u32)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|t| {
                s.spawn(move || {
                    (t * per..(t + 1) * per)
                        .map(|i| {
                            let p = public(i);
                            let mut r = p;
                            r.reverse();
                            (
                                u64::from_be_bytes(p[..8].try_into().unwrap()),
                                u64::from_be_bytes(r[..8].try_into().unwrap()),
                                i,
                            )
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for what in ["prefix", "suffix"] {
        let key = |x: &(u64, u64, u32)| if what == "prefix" { x.0 } else { x.1 };
        all.sort_by_key(key);
        for bytes in 1..8u32 {
            let mut shown = 0;
            for w in all.windows(2) {
                let same = (key(&w[0]) ^ key(&w[1])).leading_zeros() / 8;
                if same == bytes && shown < 4 {
                    println!("    (\"{}\", {}, {}, {}),", what, bytes, w[0].2, w[1].2);
                    shown += 1;
                }
            }
        }
    }
}
